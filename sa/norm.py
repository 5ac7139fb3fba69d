"""Loops written in other ways are read as `for` loops over what they visit."""
import json

import copy


def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from nodes(v)


def name(e):
    """the local a path stands for"""
    if isinstance(e, dict) and e.get("k") == "Path" and len(e.get("p") or ()) == 1 and not e.get("q") and not e["p"][0].get("g"):
        return e["p"][0]["n"]


def mentions(n, x):
    for y in nodes(n):
        if name(y) == x:
            return True
        if y.get("toks") and '"%s"' % x in json.dumps(y["toks"]):
            return True
        if y.get("k") == "Lit" and y.get("t") == "str" and "{%s" % x in str(y.get("v")):
            return True
    return False


def place(e):
    """a place that can be written down twice: a path or a chain of fields"""
    while isinstance(e, dict) and (e.get("k") == "Field" or e.get("k") == "Ref"):
        e = e["e"]
    return name(e)


def bare(e):
    while isinstance(e, dict) and e.get("k") == "Ref":
        e = e["e"]
    return e


def strip(n):
    if isinstance(n, dict):
        return {k: strip(v) for k, v in n.items() if k != "l"}
    if isinstance(n, list):
        return [strip(v) for v in n]
    return n


def same(a, b):
    return strip(a) == strip(b)


def changed(n, x):
    """the local may be written, or borrowed to be written, in the statements"""
    for y in nodes(n):
        k = y.get("k")
        if k in ("Assign",) or k == "Binary" and y["o"].endswith("=") and y["o"] not in ("==", "!=", "<=", ">="):
            e = y["a"]
            while isinstance(e, dict) and e.get("k") in ("Field", "Index", "Unary"):
                e = e["e"]
            if name(e) == x:
                return True
        if k == "Ref" and y.get("m") and place(y["e"]) == x:
            return True
        if k == "Method" and place(y["r"]) == x and y["m"] in ("push", "pop", "remove", "insert", "clear", "truncate", "drain", "retain", "swap_remove", "extend", "append", "next", "take",
                                                              "try_push", "try_insert", "push_back", "pop_front", "force_push", "split_off", "resize"):
            return True
    return False


def islen(e):
    """X for `X.len()`"""
    while isinstance(e, dict) and e.get("k") == "Cast":
        e = e["e"]
    if isinstance(e, dict) and e.get("k") == "Method" and e["m"] == "len" and not e["a"] and place(e["r"]):
        return e["r"]


def iszero(e):
    return isinstance(e, dict) and e.get("k") == "Lit" and e.get("t") == "int" and int(e["v"]) == 0


def some(p):
    if isinstance(p, dict) and p.get("k") == "TupleStruct" and p["p"][-1]["n"] == "Some" and len(p["a"]) == 1:
        return p["a"][0]


def replace(n, f):
    r = f(n) if isinstance(n, dict) else None
    if r is not None:
        return r
    if isinstance(n, dict):
        return {k: replace(v, f) for k, v in n.items()}
    if isinstance(n, list):
        return [replace(v, f) for v in n]
    return n


def byindex(w):
    """for i in 0..X.len() { .. X[i] .. }  ->  for v in X.iter() { .. v .. }"""
    e = w["e"]
    if not (w["p"].get("k") == "Ident" and e.get("k") == "Range" and not e.get("incl") and e.get("s") and iszero(e["s"]) and e.get("e")):
        return w
    xs = islen(e["e"])
    if xs is None or place(xs) == w["p"]["n"]:
        return w
    i = w["p"]["n"]
    v = "%s_of_%s" % (place(xs), i)
    hits = [0]

    def f(n):
        if n.get("k") == "Index" and same(bare(n["e"]), bare(xs)) and name(n["i"]) == i:
            hits[0] += 1
            return {"k": "Path", "p": [{"n": v}], "l": n.get("l", 1)}
        if n.get("k") == "Method" and n["m"] == "get" and len(n["a"]) == 1 and same(bare(n["r"]), bare(xs)) and name(n["a"][0]) == i:
            hits[0] += 1
            return {"k": "Call", "f": {"k": "Path", "p": [{"n": "Some"}], "l": 1}, "a": [{"k": "Path", "p": [{"n": v}], "l": 1}], "l": n.get("l", 1)}
    b = replace(w["b"], f)
    if not hits[0] or changed(b, place(xs)):
        return w
    m = "iter"
    if changed(b, v) or any(y.get("k") == "Method" and place(y["r"]) == v for y in nodes(b)):
        # the elements may be changed in place
        m = "iter_mut"
        b = replace(b, lambda n: {"k": "Unary", "o": "*", "e": dict(n), "l": n.get("l", 1)} if name(n) == v else None)
    it = {"k": "Method", "r": xs, "m": m, "a": [], "l": w.get("l", 1)}
    iv = {"k": "Ident", "n": v, "r": False, "m": False, "sub": None}
    if not mentions(b, i):
        return dict(w, p=iv, e=it, b=b)
    return dict(w, p={"k": "Tuple", "a": [w["p"], iv]}, e={"k": "Method", "r": it, "m": "enumerate", "a": [], "l": w.get("l", 1)}, b=b)


def own(n):
    """nodes of the statements that belong to this loop"""
    if isinstance(n, dict):
        yield n
        if n.get("k") in ("For", "While", "Loop", "Closure"):
            return
        for v in n.values():
            yield from own(v)
    elif isinstance(n, list):
        for v in n:
            yield from own(v)


def counted(w, before):
    """let mut i = A; while i < B { ..; i += 1 }  ->  for i in A..B { .. }"""
    c = w["c"]
    if not (c.get("k") == "Binary" and c["o"] in ("<", "<=", ">", ">=", "!=")):
        return None
    a, b = (c["a"], c["b"]) if c["o"] in ("<", "<=", "!=") else (c["b"], c["a"])
    i = name(a)
    if i is None or not w["b"]:
        return None
    last = w["b"][-1]
    e = last.get("e") or {}
    one = lambda x: isinstance(x, dict) and x.get("k") == "Lit" and x.get("t") == "int" and int(x["v"]) == 1
    step = e.get("k") == "Binary" and e["o"] == "+=" and name(e["a"]) == i and one(e["b"]) or \
        e.get("k") == "Assign" and name(e["a"]) == i and (e["b"].get("k") == "Binary" and e["b"]["o"] == "+" and name(e["b"]["a"]) == i and one(e["b"]["b"]) or
                                                         e["b"].get("k") == "Method" and e["b"]["m"] == "saturating_add" and name(e["b"]["r"]) == i and one(e["b"]["a"][0]))
    if not step or changed(w["b"][:-1], i) or any(y.get("k") == "Continue" for y in own(w["b"][:-1])):
        return None
    if c["o"] == "!=":
        return None
    # the bound stays as it is
    if b.get("k") != "Lit":
        x = islen(b)
        p = place(x if x is not None else b)
        if p is None or changed(w["b"], p):
            return None
    init = None
    for s in before:
        if s.get("k") == "Local" and s.get("p", {}).get("k") == "Ident" and s["p"]["n"] == i and s.get("e"):
            init = s
        elif init is not None and (changed([s], i)):
            init = None
    if init is None:
        return None
    return init, {"k": "For", "p": dict(init["p"], m=False), "e": {"k": "Range", "s": init["e"], "e": b, "incl": c["o"] in ("<=", ">=")}, "b": w["b"][:-1], "l": w.get("l", 1)}


def lit(e):
    return e["v"] if isinstance(e, dict) and e.get("k") == "Lit" and e.get("t") == "bool" else None


def setto(s):
    """(flag, bool) for `flag = true;`"""
    e = s.get("e") if s.get("k") == "Expr" else None
    if e and e.get("k") == "Assign" and name(e["a"]) and lit(e["b"]) is not None:
        return name(e["a"]), lit(e["b"])


def flagged(w, out):
    """let mut f = false; for p in X { if c { f = true; break } }  ->  let mut f = X.any(|p| c)"""
    if not w["b"] or any(y.get("k") in ("Try", "Return", "Continue", "Macro", "For", "While", "Loop") and not (y.get("k") == "Macro" and y.get("n") == "matches") for y in nodes(w["b"])) or "label" in w:
        return None
    last = w["b"][-1]
    e = last.get("e") if last.get("k") == "Expr" else None
    if any(s.get("k") != "Local" or s.get("els") for s in w["b"][:-1]):
        return None
    if e and e.get("k") == "If" and not e.get("e") and e["c"].get("k") != "Let" and e["t"]:
        f = setto(e["t"][0])
        rest = e["t"][1:]
        if not f or len(rest) > 1 or rest and (rest[0].get("e") or {}).get("k") != "Break":
            return None
        c = e["c"]
    elif e and e.get("k") == "Binary" and e["o"] == "|=" and name(e["a"]):
        f, c = (name(e["a"]), True), e["b"]
    else:
        return None
    flag, v = f
    decl = [s for s in out if s.get("k") == "Local" and s.get("p", {}).get("k") == "Ident" and s["p"]["n"] == flag]
    if not decl or lit(decl[-1].get("e")) is not (not v):
        return None
    between = out[out.index(decl[-1]) + 1:]
    if mentions(between, flag) or mentions(w["e"], flag) or mentions(w["b"][:-1], flag) or mentions(c, flag):
        return None
    if any(y.get("k") == "Let" for y in nodes(c)):
        return None
    if not v:
        while c.get("k") == "Paren":
            c = c["e"]
        c = c["e"] if c.get("k") == "Unary" and c["o"] == "!" else {"k": "Unary", "o": "!", "e": c, "l": w.get("l", 1)}
    body = {"k": "Block", "b": w["b"][:-1] + [{"k": "Expr", "e": c, "semi": False, "l": w.get("l", 1)}], "l": w.get("l", 1)} if len(w["b"]) > 1 else c
    call = {"k": "Method", "r": w["e"], "m": "any" if v else "all", "a": [{"k": "Closure", "a": [w["p"]], "b": body, "async": False, "l": w.get("l", 1)}], "l": w.get("l", 1)}
    return decl[-1], dict(decl[-1], e=call)


def emptyvec(e):
    if not isinstance(e, dict):
        return False
    if e.get("k") == "Macro" and e.get("n") == "vec" and not e.get("toks") and not e.get("a"):
        return True
    return e.get("k") == "Call" and e["f"].get("k") == "Path" and e["f"]["p"][-1]["n"] in ("new", "with_capacity", "default") and len(e["f"]["p"]) > 1 and e["f"]["p"][-2]["n"] == "Vec"


def limit(s, v):
    """N for `if v.len() >= N { break; }`"""
    e = s.get("e") if s.get("k") == "Expr" else None
    if not (e and e.get("k") == "If" and not e.get("e") and len(e["t"]) == 1 and (e["t"][0].get("e") or {}).get("k") == "Break" and not e["t"][0]["e"].get("label")):
        return None
    c = e["c"]
    while c.get("k") == "Paren":
        c = c["e"]
    if c.get("k") != "Binary":
        return None
    for x, y, ops in ((c["a"], c["b"], (">=", "==")), (c["b"], c["a"], ("<=", "=="))):
        if c["o"] in ops and x.get("k") == "Method" and x["m"] == "len" and name(x["r"]) == v:
            return y
    return None


def refusal(s):
    """ensure!(..) or if c { return Err(..) }"""
    e = s.get("e") if s.get("k") == "Expr" else s if s.get("k") == "Macro" else None
    while e and e.get("k") == "Paren":
        e = e["e"]
    if not e:
        return False
    if e.get("k") == "Macro":
        return e.get("n") == "ensure"
    if e.get("k") != "If" or e.get("e") or len(e["t"]) != 1 or any(y.get("k") in ("Let", "Return", "Try") for y in nodes(e["c"])):
        return False
    r = e["t"][0].get("e") or {}
    x = r.get("e") or {}
    return r.get("k") == "Return" and x.get("k") == "Call" and x["f"].get("k") == "Path" and x["f"]["p"][-1]["n"] == "Err"


def bound(p):
    return {y["n"] for y in nodes(p) if y.get("k") == "Ident" and "n" in y}


def onlyown(p, pre, es):
    """the statements name no local but those of the loop itself"""
    own = bound(p) | set().union(*[bound(s.get("p")) for s in pre if s.get("k") == "Local"], set())
    own |= set().union(*[bound(y.get("a")) for y in nodes([pre, es]) if y.get("k") == "Closure"], set())
    return not any(y.get("k") == "Macro" for y in nodes([pre, es])) and all(
        n in own or not n[0].islower() or n == "self" for y in nodes([pre, es]) for n in [name(y)] if n)


def pushed(w, out):
    """let mut v = vec![]; for p in X { v.push(e); }  ->  let mut v = X.map(|p| e).collect::<Vec<_>>()
    with `if c { v.push(e) }` -> X.filter(|p| c).map(..), and `if v.len() >= n { break }` in front -> .take(n)"""
    if not w["b"] or "label" in w or not w["b"][-1].get("k") == "Expr":
        return None
    e = w["b"][-1]["e"]
    cond, inner, let = None, w["b"], None
    if e.get("k") == "If" and not e.get("e") and e["c"].get("k") == "Let" and e["t"] and e["t"][-1].get("k") == "Expr":
        let, inner = e, e["t"]
        e = e["t"][-1]["e"]
    elif e.get("k") == "If" and not e.get("e") and e["t"] and e["t"][-1].get("k") == "Expr":
        cond, inner = e["c"], e["t"]
        e = e["t"][-1]["e"]
    if not (e and e.get("k") == "Method" and e["m"] == "push" and len(e["a"]) == 1 and name(e["r"])):
        return None
    v = name(e["r"])
    pre = w["b"][:-1]
    cap = limit(pre[0], v) if pre else None
    if cap is not None:
        pre = pre[1:]
        if mentions(cap, v):
            return None
    ins = inner[:-1] if cond or let else []
    if let and (cap is not None or mentions(let["c"], v) or any(y.get("k") in ("Try", "Return", "Macro") for y in nodes(let["c"]))):
        return None
    if cond and any(y.get("k") == "Let" for y in nodes(cond)):
        return None
    stop = not cond and not let and cap is None and (any(refusal(s) for s in pre) or
        any(y.get("k") == "Try" for y in nodes([pre, e["a"]])) and onlyown(w["p"], pre, e["a"]))
    rest = [s for s in pre if not refusal(s)] if stop else pre
    if any(y.get("k") in (() if stop else ("Try",)) + ("Return", "Continue", "Break", "Macro", "For", "While", "Loop", "Assign") for y in nodes([rest, ins, cond or {}, e["a"]])):
        return None
    if any(s.get("k") != "Local" or s.get("els") for s in rest + ins) or mentions([pre, ins, cond or {}], v) or mentions(e["a"], v) or mentions(w["e"], v):
        return None
    decl = [s for s in out if s.get("k") == "Local" and (s["p"]["p"] if s["p"].get("k") == "Type" else s["p"]).get("k") == "Ident" and (s["p"]["p"] if s["p"].get("k") == "Type" else s["p"])["n"] == v]
    if not decl or not emptyvec(decl[-1].get("e")) or mentions(out[out.index(decl[-1]) + 1:], v):
        return None
    d = decl[-1]
    l = w.get("l", 1)

    def clo(ss, x):
        return {"k": "Closure", "a": [copy.deepcopy(w["p"])], "b": {"k": "Block", "b": copy.deepcopy(ss) + [{"k": "Expr", "e": x, "semi": False, "l": l}], "l": l} if ss else x, "async": False, "l": l}

    src = w["e"]
    if src.get("k") != "Range" and not (src.get("k") == "Method" and src["m"] in ("iter", "into_iter")):
        src = {"k": "Method", "r": src, "m": "into_iter", "a": [], "l": l}
    if cond:
        src = {"k": "Method", "r": src, "m": "filter", "a": [clo(pre, cond)], "l": l}
    if cap is not None:
        src = {"k": "Method", "r": src, "m": "take", "a": [cap], "l": l}
    if stop:      # the loop stops the function at its first refusal, and so does collecting results
        ok = {"k": "Call", "f": {"k": "Path", "p": [{"n": "Ok"}], "l": l}, "a": [e["a"][0]], "l": l}
        mp = {"k": "Method", "r": src, "m": "map", "a": [clo(pre, ok)], "l": l}
    else:
        mp = {"k": "Method", "r": src, "m": "map", "a": [clo(pre + ins, e["a"][0])], "l": l}
    if let:
        path = lambda n: {"k": "Path", "p": [{"n": n}], "l": l}
        hit = {"k": "Call", "f": path("Some"), "a": e["a"], "l": l}
        pick = dict(let, t=copy.deepcopy(ins) + [{"k": "Expr", "e": hit, "semi": False, "l": l}], e={"k": "Block", "b": [{"k": "Expr", "e": path("None"), "semi": False, "l": l}], "l": l})
        mp = {"k": "Method", "r": src, "m": "filter_map", "a": [clo(pre, pick)], "l": l}
    c = {"k": "Method", "r": mp, "m": "collect", "a": [], "l": l}
    if stop:
        c = {"k": "Try", "e": dict(c, g=[{"k": "Path", "p": [{"n": "Result", "g": [{"k": "Infer"}, {"k": "Infer"}]}]}]), "l": l}
    if d["p"].get("k") != "Type":
        d = dict(d, p={"k": "Type", "p": d["p"], "t": {"k": "Path", "p": [{"n": "Vec", "g": [{"k": "Infer"}]}]}})
    return decl[-1], dict(d, e=c)


def summed(w, out):
    """let mut t = 0; for p in X { t += e; }  ->  let mut t = X.map(|p| e).sum()"""
    if not w["b"] or "label" in w or w["b"][-1].get("k") != "Expr":
        return None
    e, cond = w["b"][-1]["e"], None
    if e.get("k") == "If" and len(w["b"]) == 1 and not e.get("f") and len(e["t"]) == 1 and e["t"][0].get("k") == "Expr" and e["c"].get("k") != "Let":
        one = e["t"][0]["e"]          # a count: if c { n += 1; }
        if one.get("k") == "Binary" and one["o"] == "+=" and one["b"].get("k") == "Lit" and str(one["b"].get("v")) == "1":
            e, cond = one, e["c"]
    if e.get("k") == "Binary" and e["o"] == "+=" and name(e["a"]):
        v, x = name(e["a"]), e["b"]
    elif e.get("k") == "Assign" and name(e["a"]) and e["b"].get("k") == "Binary" and e["b"]["o"] == "+" and name(e["b"]["a"]) == name(e["a"]):
        v, x = name(e["a"]), e["b"]["b"]
    else:
        return None
    pre = w["b"][:-1]
    if any(y.get("k") in ("Try", "Return", "Continue", "Break", "Macro", "For", "While", "Loop", "Assign", "Let") for y in nodes([pre, x, cond])):
        return None
    if any(s.get("k") != "Local" or s.get("els") for s in pre) or mentions([pre, x, cond], v) or mentions(w["e"], v):
        return None
    pid = lambda s: s["p"]["p"] if s["p"].get("k") == "Type" else s["p"]
    decl = [s for s in out if s.get("k") == "Local" and pid(s).get("k") == "Ident" and pid(s)["n"] == v]
    if not decl or not zero(decl[-1].get("e")) or mentions(out[out.index(decl[-1]) + 1:], v):
        return None
    d, l = decl[-1], w.get("l", 1)
    src = w["e"]
    if src.get("k") != "Range" and not (src.get("k") == "Method" and src["m"] in ("iter", "into_iter")):
        src = {"k": "Method", "r": src, "m": "into_iter", "a": [], "l": l}
    if cond is not None:
        f = {"k": "Method", "r": src, "m": "filter", "a": [{"k": "Closure", "a": [copy.deepcopy(w["p"])], "b": copy.deepcopy(cond), "async": False, "l": l}], "l": l}
        return d, dict(d, e={"k": "Method", "r": f, "m": "count", "a": [], "l": l})
    b = {"k": "Block", "b": copy.deepcopy(pre) + [{"k": "Expr", "e": x, "semi": False, "l": l}], "l": l} if pre else x
    mp = {"k": "Method", "r": src, "m": "map", "a": [{"k": "Closure", "a": [copy.deepcopy(w["p"])], "b": b, "async": False, "l": l}], "l": l}
    return d, dict(d, e={"k": "Method", "r": mp, "m": "sum", "a": [], "l": l})


def zero(e):
    if not e:
        return False
    if e.get("k") == "Lit":
        return str(e.get("v")) in ("0", "0u128", "0u32", "0u64")
    return e.get("k") == "Call" and not e["a"] and e["f"].get("k") == "Path" and e["f"]["p"][-1]["n"] == "zero"


FOLD = [0]


def folded(n):
    """X.fold((a, b), |(p, q), e| body)  ->  { let mut p = a; let mut q = b; for e in X { let t = body; p = t.0; q = t.1; } (p, q) }"""
    if n.get("m") != "fold" or len(n.get("a", ())) != 2:
        return None
    init, c = n["a"]
    if init.get("k") != "Tuple" or c.get("k") != "Closure" or len(c["a"]) != 2:
        return None
    acc, el = c["a"]
    while acc.get("k") in ("Paren", "Type"):
        acc = acc["p"]
    ini = init.get("a") or []
    if acc.get("k") != "Tuple" or not isinstance(ini, list) or len(ini) != len(acc["a"]) or any(x.get("k") != "Ident" for x in acc["a"]):
        return None
    if any(y.get("k") in ("Try", "Return") for y in nodes(c["b"])):
        return None
    l = n.get("l", 1)
    FOLD[0] += 1
    t = "fold__%d" % FOLD[0]
    path = lambda x: {"k": "Path", "p": [{"n": x}], "l": l}
    b = [{"k": "Local", "p": dict(x, m=True), "e": i, "l": l} for x, i in zip(acc["a"], ini)]
    body = [{"k": "Local", "p": dict(acc["a"][0], n=t, m=False), "e": c["b"], "l": l}]
    body += [{"k": "Expr", "e": {"k": "Assign", "a": path(x["n"]), "b": {"k": "Field", "e": path(t), "n": str(i), "l": l}, "l": l}, "semi": True, "l": l} for i, x in enumerate(acc["a"])]
    b.append({"k": "Expr", "e": {"k": "For", "p": el, "e": n["r"], "b": body, "l": l}, "semi": False, "l": l})
    b.append({"k": "Expr", "e": {"k": "Tuple", "a": [path(x["n"]) for x in acc["a"]], "l": l}, "semi": False, "l": l})
    return {"k": "Block", "b": b, "l": l}


def stmts(b):
    out = []
    for j, s in enumerate(b):
        e = s.get("e") if isinstance(s, dict) and s.get("k") == "Expr" else None
        if e and e.get("k") == "While" and "label" not in e:
            c = e["c"]
            if c.get("k") == "Let" and some(c["p"]) is not None and c["e"].get("k") == "Method" and c["e"]["m"] == "next" and not c["e"]["a"]:
                it = name(bare(c["e"]["r"]))
                decl = [x for x in out if x.get("k") == "Local" and x.get("p", {}).get("k") == "Ident" and x["p"]["n"] == it]
                if it and decl and not mentions(e["b"], it) and not mentions(b[j + 1:], it):
                    between = out[out.index(decl[-1]) + 1:]
                    if not mentions(between, it):
                        s = dict(s, e={"k": "For", "p": some(c["p"]), "e": c["e"]["r"], "b": e["b"], "l": e.get("l", 1)})
            else:
                r = counted(e, out)
                if r and not mentions(b[j + 1:], r[1]["p"]["n"]):
                    s = dict(s, e=r[1])
        if s.get("k") == "Expr" and s["e"].get("k") == "For":
            s = dict(s, e=byindex(s["e"]))
            r = flagged(s["e"], out) or pushed(s["e"], out) or summed(s["e"], out)
            if r:
                out.remove(r[0])
                s = r[1]
        out.append(s)
    return out


def only(b):
    """the value of a block that does nothing else"""
    b = b.get("b") if isinstance(b, dict) and b.get("k") == "Block" else b
    if isinstance(b, list) and len(b) == 1 and b[0].get("k") == "Expr" and not b[0].get("semi"):
        return b[0]["e"]


def smaller(n):
    """if a < b { a } else { b }: the smaller (larger) of two places"""
    c = n["c"]
    if not isinstance(c, dict) or c.get("k") != "Binary" or c["o"] not in ("<", "<=", ">", ">=") or place(c["a"]) is None or place(c["b"]) is None:
        return None
    t, e = only(n["t"]), only(n.get("e"))
    if t is None or e is None:
        return None
    m = "min" if c["o"][0] == "<" else "max"
    if same(t, c["b"]) and same(e, c["a"]):
        m = "max" if m == "min" else "min"
    elif not (same(t, c["a"]) and same(e, c["b"])):
        return None
    return {"k": "Method", "m": m, "r": c["a"], "a": [c["b"]], "l": n.get("l", 1)}


def extreme(e):
    if isinstance(e, dict) and e.get("k") == "Method" and e["m"] in ("min", "max") and len(e["a"]) == 1:
        return e["m"], e["r"], bare(e["a"][0])
    if isinstance(e, dict) and e.get("k") == "Call" and e["f"].get("k") == "Path" and e["f"]["p"][-1]["n"] in ("min", "max") and len(e["a"]) == 2:
        return e["f"]["p"][-1]["n"], e["a"][0], e["a"][1]


def sortedpair(n):
    """(a.min(b), a.max(b)): the two values in order"""
    if len(n.get("a") or ()) != 2:
        return None
    x, y = extreme(n["a"][0]), extreme(n["a"][1])
    if not x or not y or {x[0], y[0]} != {"min", "max"} or place(x[1]) is None or place(x[2]) is None:
        return None
    if not (same(x[1], y[1]) and same(x[2], y[2]) or same(x[1], y[2]) and same(x[2], y[1])):
        return None
    up, down = dict(n, a=[x[1], x[2]]), dict(n, a=[x[2], x[1]])
    l = n.get("l", 1)
    return {"k": "If", "c": {"k": "Binary", "o": ">", "a": x[1], "b": x[2], "l": l}, "l": l,
            "t": [{"k": "Expr", "semi": False, "e": down if x[0] == "min" else up, "l": l}],
            "e": {"k": "Block", "b": [{"k": "Expr", "semi": False, "e": up if x[0] == "min" else down, "l": l}], "l": l}}


def isblock(n):
    return isinstance(n, list) and n and all(isinstance(x, dict) and x.get("k") in ("Local", "Expr", "Item") for x in n)


def normal(n):
    if isinstance(n, dict):
        for k, v in n.items():
            if isinstance(v, (dict, list)) and k not in ("toks", "attrs"):
                n[k] = normal(v)
        k = n.get("k")
        return (folded(n) or n) if k == "Method" else (smaller(n) or n) if k == "If" else (sortedpair(n) or n) if k in ("Call", "Tuple") else n
    if isinstance(n, list):
        for i, v in enumerate(n):
            n[i] = normal(v)
        if isblock(n) and any(x.get("k") == "Expr" and isinstance(x.get("e"), dict) and x["e"].get("k") in ("While", "For") for x in n):
            return stmts(n)
        return n
    return n
