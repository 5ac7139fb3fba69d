"""Patterns over value numbers, facts and effects.

A pattern is written as a Python-syntax expression and compiled once.  Matching is syntactic on hash-consed
terms, modulo representation: casts, fallible integer conversions, load epochs, Some/Ok, ValueQuery/OptionQuery
wrapping and the orientation of comparisons are transparent.
"""
import ast
import fnmatch
from .terms import *
from .engine import mkeq, mklt  # noqa


class PatError(Exception):
    pass


_PC = {}
_FC = {}


def strip(t):
    """representation-transparent view of a term"""
    while isinstance(t, Term):
        o = t.op
        if o == "as":
            t = t.args[1]
        elif o == "tryinto":
            t = t.args[0]
        elif o == "unw" and isinstance(t.args[0], Term) and t.args[0].op in ("tryinto", "as"):
            t = t.args[0]
        elif o == "optview":
            t = t.args[0]
        else:
            return t
    return t


def P(src):
    p = _PC.get(src)
    if p is None:
        try:
            p = _comp(ast.parse(src.strip(), mode="eval").body)
        except SyntaxError as e:
            raise PatError("%s: %s" % (src, e))
        _PC[src] = p
    return p


def F(src):
    p = _FC.get(src)
    if p is None:
        try:
            p = _fact(ast.parse(src.strip(), mode="eval").body)
        except SyntaxError as e:
            raise PatError("%s: %s" % (src, e))
        _FC[src] = p
    return p


def E(src):
    p = _FC.get("E" + src)
    if p is None:
        try:
            p = _eff(ast.parse(src.strip(), mode="eval").body)
        except SyntaxError as e:
            raise PatError("%s: %s" % (src, e))
        _FC["E" + src] = p
    return p


# `firsts(v, n)`: an element of the first n entries of v; `after(v, n)`: v without its first n entries
SUGAR = {
    "firsts": "alt(op('idx', V, elem(op('range', alt(0, none), M))), elem(op('slice', V, op('range', alt(0, none), M))), elem(op('it', 'take', V, M)), elem(op('take', V, M)))",
    "heads": "alt(op('slice', V, op('range', alt(0, none), M)), op('it', 'take', V, M), op('take', V, M))",
    "after": "alt(op('slice', V, op('range', M, _)), op('skip', V, M), op('it', 'skip', V, M), mut('drain', V, op('range', alt(0, none), M)))",
}


def _comp(n):
    """term pattern -> tuple tree"""
    if isinstance(n, ast.Name):
        i = n.id
        if i == "_":
            return ("any",)
        if i == "SIGNER":
            return ("lit", T("signer"))
        if i == "SELF":
            return ("lit", T("self"))
        if i in ("NONE", "none"):
            return ("lit", NONE)
        if i in ("TRUE", "FALSE", "true", "false"):
            return ("lit", TRUE if i.upper() == "TRUE" else FALSE)
        if i == "UNIT":
            return ("lit", UNIT)
        if i[0] == "P" and i[1:].isdigit():
            return ("lit", T("param", int(i[1:])))
        if i[0] == "A" and i[1:].isdigit():
            return ("lit", T("arg", int(i[1:])))
        if i[0].isupper():
            return ("ld", i, ())
        if len(i) > 3 and i not in ("share", "share2", "rest", "loop"):
            raise PatError("unknown name %r" % i)
        return ("bind", i)
    if isinstance(n, ast.Constant):
        if n.value is Ellipsis:
            return ("rest",)
        return ("lit", C(n.value))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return ("lit", C(-n.operand.value))
    if isinstance(n, ast.Tuple):
        return ("tup",) + tuple(_comp(x) for x in n.elts)
    if isinstance(n, ast.Subscript):
        if isinstance(n.value, ast.Name) and n.value.id[0].isupper():
            sl = n.slice
            ks = tuple(_comp(x) for x in sl.elts) if isinstance(sl, ast.Tuple) else (_comp(sl),)
            return ("ld", n.value.id, ks)
        return ("idx", _comp(n.value), _comp(n.slice))
    if isinstance(n, ast.Attribute):
        if isinstance(n.value, ast.Name) and n.value.id == "cfg":
            return ("cfg", n.attr)
        b = _comp(n.value)
        if n.attr == "q":
            return ("unw", b)
        a = n.attr
        if a[0] == "f" and a[1:].isdigit():
            a = a[1:]
        return ("f", b, a)
    if isinstance(n, ast.BinOp):
        o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.FloorDiv: "/", ast.BitXor: "^",
             ast.BitAnd: "&", ast.BitOr: "|", ast.LShift: "<<", ast.RShift: ">>"}[type(n.op)]
        l, r = _comp(n.left), _comp(n.right)
        if o in ("+", "*"):
            xs = []
            for x in (l, r):
                xs.extend(x[2:] if x[0] == "ac" and x[1] == o else [x])
            return ("ac", o) + tuple(xs)
        return ("bin", o, l, r)
    if isinstance(n, ast.Call):
        fn = n.func.id if isinstance(n.func, ast.Name) else None
        a = n.args
        if fn in SUGAR and len(a) == 2:
            v, m = (ast.unparse(x) for x in a)
            return _comp(ast.parse(SUGAR[fn].replace("V", v).replace("M", m), mode="eval").body)
        if fn == "alt":
            return ("alt",) + tuple(_comp(x) for x in a)
        if fn == "has":
            return ("has", _comp(a[0]))
        if fn == "nothas":
            return ("nothas", _comp(a[0]))
        if fn == "nota":
            return ("nota", _comp(a[0]))
        if fn == "each":      # the value, or on every distinguished case the value
            return ("each", _comp(a[0]))
        if fn == "wide":      # the value passes through no conversion to a type below 128 bits
            return ("wide", _comp(a[0]))
        if fn == "sub":       # a - b, checked, saturating or plain
            x, y = _comp(a[0]), _comp(a[1])
            return ("alt", ("op", "sat-", (x, y)), ("bin", "-", x, y))
        if fn == "call":
            return ("call", a[0].value, tuple(_comp(x) for x in a[1:]))
        if fn == "mc":
            return ("mc", a[0].value, _comp(a[1]), tuple(_comp(x) for x in a[2:]))
        if fn == "var":
            return ("var", a[0].value, tuple(_comp(x) for x in a[1:]))
        if fn in ("varst", "struct"):
            return (fn, a[0].value, tuple((k.arg, _comp(k.value)) for k in n.keywords))
        if fn == "upd":
            return ("upd", _comp(a[0]), tuple((k.arg, _comp(k.value)) for k in n.keywords))
        if fn == "chg":       # an update of at least these fields
            return ("chg", _comp(a[0]), tuple((k.arg, _comp(k.value)) for k in n.keywords))
        if fn == "vp":
            return ("vp", _comp(a[0]), a[1].value, a[2].value)
        if fn == "op":
            return ("op", a[0].value, tuple(_comp(x) for x in a[1:]))
        if fn == "good":
            return ("op", "good", (_comp(a[0]),))
        if fn == "both":
            return ("both",) + tuple(_comp(x) for x in a)
        if fn == "one":       # one (witnessed or iterated) element of a collection
            return ("one", _comp(a[0]))
        if fn == "same":      # same("x", pat): bind and match
            return ("bindp", a[0].value, _comp(a[1]))
        if fn in ("elem", "len", "empty", "pos", "not_", "min", "max", "coll"):
            return ("op", {"not_": "not"}.get(fn, fn), tuple(_comp(x) for x in a))
        if fn == "entries":   # the entries of a map (below a key prefix)
            return ("entries", a[0].value, tuple(_comp(x) for x in a[1:]))
        if fn == "vec":
            return ("op", "vec", tuple(_comp(x) for x in a))
        if fn == "tup":
            return ("tup",) + tuple(_comp(x) for x in a)
        if fn in ("mut", "mres"):
            return ("op", fn, (("name", a[0].value),) + tuple([_comp(a[1]), ("tupargs",) + tuple(_comp(x) for x in a[2:])]))
        raise PatError("unknown pattern function %r" % fn)
    raise PatError("unsupported pattern %s" % ast.dump(n))


NARROW = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize"}


def narrowed(t):
    """does the value pass through a lossy integer conversion (outside the arguments of interface calls and storage keys)?"""
    st = [t]
    while st:
        t = st.pop()
        if isinstance(t, (tuple, list)):
            st.extend(t)
        elif isinstance(t, Term):
            if t.op == "as" and any(n in NARROW for n in (t.args[0] if isinstance(t.args[0], (tuple, list)) else (t.args[0],)) if isinstance(n, str)):
                return True
            if t.op in ("as", "unw", "good", "tryinto") or not t.op[:1].isalpha() or t.op.startswith("sat"):
                st.extend(t.args)
    return False


PERMIT = False          # matching against what may be written (rather than what must be)


def match(p, t, env):
    """yield extended environments"""
    k = p[0]
    if k == "any":
        yield env
        return
    if k == "each":
        if isinstance(t, Term) and t.op == "tup" and t.args and all(isinstance(c, Term) and c.op == "case" for c in t.args):
            t = t.args
        cs = [c.args[1] for c in t if isinstance(c, Term) and c.op == "case"] if isinstance(t, tuple) else [t]
        if cs and (not isinstance(t, tuple) or len(cs) == len(t)):
            yield from _seq([p[1]] * len(cs), cs, env)
        return
    if not isinstance(t, Term):
        return
    if k == "bind":
        t = strip(t)
        v = env.get(p[1])
        if v is None:
            e = dict(env)
            e[p[1]] = t
            yield e
        elif eqv(v, t):
            yield env
        return
    if k == "bindp":
        for e in match(p[2], t, env):
            t2 = strip(t)
            v = e.get(p[1])
            if v is None:
                e = dict(e)
                e[p[1]] = t2
                yield e
            elif eqv(v, t2):
                yield e
        return
    if k == "alt":
        for q in p[1:]:
            yield from match(q, t, env)
        return
    if k == "both":
        yield from _seq(p[1:], [t] * (len(p) - 1), env)
        return
    if k == "has":
        for s in subterms(t):
            yield from match(p[1], s, env)
        return
    if k == "nothas":
        for s in subterms(t):
            for _ in match(p[1], s, env):
                return
        yield env
        return
    if k == "wide":
        if not narrowed(t):
            yield from match(p[1], t, env)
        return
    if k == "nota":
        for _ in match(p[1], t, env):
            return
        yield env
        return
    t0 = t
    t = strip(t)
    if k == "lit":
        if eqv(p[1], t):
            yield env
        return
    o = t.op
    if k == "ld":
        if o == "ld" and t.args[0] == p[1]:
            yield from _keys(p[2], t.args[1], env)
        return
    if k == "cfg":
        if o == "cfg" and t.args[0] == p[1]:
            yield env
        return
    if k == "f":
        if o == "f" and t.args[1] == p[2]:
            yield from match(p[1], t.args[0], env)
        return
    if k == "unw":
        if o == "unw":
            yield from match(p[1], t.args[0], env)
        elif o == "idx":
            yield from match(p[1], T("get", *t.args[:2]), env)
        elif o in ("ld", "param", "arg", "f", "elem") :
            yield from match(p[1], t, env)
        elif o not in ("good",):
            yield from match(p[1], T("good", t), env)
        return
    if k == "idx":
        if o == "idx":
            yield from _seq(p[1:], t.args[:2], env)
        elif o == "unw" and t.args[0].op == "get":
            yield from _seq(p[1:], t.args[0].args[:2], env)
        return
    if k == "tup":
        if o == "tup":
            yield from _seq(p[1:], t.args, env)
        elif o == "upd" and all(n.isdigit() for n, _ in t.args[1]):
            d = dict(t.args[1])
            yield from _seq(p[1:], [d.get(str(i), T("f", t.args[0], str(i))) for i in range(len(p) - 1)], env)
        elif o in ("param", "arg", "f", "elem", "wit", "unw", "bound", "vp", "ld"):
            yield from _seq(p[1:], [T("f", t, str(i)) for i in range(len(p) - 1)], env)
        return
    if k == "tupargs":
        if isinstance(t0, tuple):
            yield from _seq(p[1:], t0, env)
        return
    if k == "ac":
        ops = (p[1], "sat" + p[1])
        if o in ops:
            yield from _perm(list(p[2:]), list(_flat(ops, t)), env)
        elif o == "chk" and t.args[0] == p[1]:
            yield from _perm(list(p[2:]), list(t.args[1:]), env)
        elif o == "unw" and t.args[0].op == "chk":
            yield from match(p, t.args[0], env)
        return
    if k == "bin":
        if o == p[1] or (o == "sat-" and p[1] == "-" and SATSUB[0](t)):
            yield from _seq(p[2:], t.args[:2], env)
        elif o == "chk" and t.args[0] == p[1]:
            yield from _seq(p[2:], t.args[1:], env)
        return
    if k == "call":
        if o == "call" and fnmatch.fnmatchcase(t.args[0], p[1]):
            yield from _seq(p[2], t.args[1], env)
        return
    if k == "mc":
        if o == "mc" and t.args[0] == p[1]:
            for e in match(p[2], t.args[1], env):
                yield from _seq(p[3], t.args[2], e)
        return
    if k == "var":
        if o == "var" and t.args[0] == p[1]:
            yield from _seq(p[2], t.args[1], env)
        return
    if k in ("varst", "struct"):
        if o in ("varst", "struct") and fnmatch.fnmatchcase(t.args[0], p[1]):
            d = dict(t.args[1])
            yield from _fields(p[2], d, env)
        elif o == "upd" and t.args[0].op == "default" and t.args[0].args and t.args[0].args[0] == p[1]:
            yield from _fields(p[2], dict(t.args[1]), env)
        elif o == "var" and k == "varst" and fnmatch.fnmatchcase(t.args[0], p[1]) and all(n.lstrip("f").isdigit() for n, _ in p[2]):
            d = {"f%d" % i: x for i, x in enumerate(t.args[1])}
            yield from _fields(p[2], d, env)
        return
    if k == "chg":
        if o == "upd":
            d = dict(t.args[1])
            if all(k2 in d for k2, _ in p[2]):
                for e in match(p[1], t.args[0], env):
                    yield from _fields(p[2], d, e)
        return
    if k == "upd":
        if o == "upd":
            d = dict(t.args[1])
            want = {(k2[1:] if k2 not in d and k2[0] == "f" and k2[1:].isdigit() else k2): q for k2, q in p[2]}
            if set(d) == set(want):
                for e in match(p[1], t.args[0], env):
                    yield from _fields(p[2], d, e)
            elif PERMIT and p[2] and set(d) < set(want):
                for e in match(p[1], t.args[0], env):
                    yield from _fields(p[2], dict({k2: T("f", t.args[0], k2) for k2, _ in p[2]}, **d), e)
        elif PERMIT and p[2] and p[1][0] != "any" and o != "struct":
            # a permission to change these fields also permits writing the value back unchanged
            for e in match(p[1], t, env):
                yield from _fields(p[2], {k2: T("f", t, k2) for k2, _ in p[2]}, e)
        elif o == "struct":
            d = dict(t.args[1])
            want = dict(p[2])
            rest = [k2 for k2 in d if k2 not in want]
            if all(k2 in d for k2 in want) and rest:
                # every other field is copied from the same base
                envs = [env]
                for k2 in rest:
                    envs = [e2 for e in envs for e2 in match(("f", p[1], k2), d[k2], e)]
                for e in envs:
                    yield from _fields(p[2], d, e)
        return
    if k == "vp":
        if o == "vp" and t.args[1] == p[2] and (p[3] == t.args[2] or str(p[3]) == str(t.args[2])):
            yield from match(p[1], t.args[0], env)
        return
    if k == "op":
        if p[1] == "idx" and o == "unw" and t.args[0].op == "mc" and t.args[0].args[0] in ("last", "first") and len(p[2]) == 2:
            x = t.args[0].args[1]
            yield from _seq(p[2], (x, arith("-", T("len", x), ONE) if t.args[0].args[0] == "last" else ZERO), env)
            return
        if p[1] == "idx" and o == "unw" and t.args[0].op == "get" and len(p[2]) == 2:
            yield from _seq(p[2], t.args[0].args[:2], env)
            return
        if o == p[1]:
            if p[1] in ("mut", "mres"):
                if t.args[0] == p[2][0][1]:
                    if p[2][1] == ("rest",):
                        yield env
                        return
                    for e in match(p[2][1], t.args[1], env):
                        pa = p[2][2][1:]
                        if pa and pa[-1] == ("rest",) or len(pa) == len(t.args[2]):
                            yield from _seq(pa, t.args[2], e)
                return
            if o in ("min", "max"):
                yield from _perm(list(p[2]), list(t.args), env)
                return
            yield from _seq(p[2], t.args[:2] if o == "phi" and len(p[2]) == 2 else t.args, env)
        return
    if k == "entries":
        if o == "entries" and t.args[0] == p[1]:
            yield from _seq(p[2], t.args[1] or (), env)
        return
    if k == "name":
        return
    if k == "one":
        if o in ("elem", "wit"):
            yield from match(p[1], t.args[0], env)
        elif o == "unw" and t.args[0].op in ("nth", "get") and t.args[0].args[-1].op != ZERO.op:
            yield from match(p[1], t.args[0].args[0], env)
        return
    raise PatError("match %r" % (p,))


SATSUB = [lambda t: False]


def _keys(ps, ks, env):
    if len(ps) == len(ks):
        yield from _seq(ps, ks, env)
    elif len(ks) == 1 and len(ps) > 1:
        yield from match(("tup",) + tuple(ps), ks[0], env)
    elif len(ps) == 1 and len(ks) > 1:
        yield from match(ps[0], T("tup", *ks), env)


def _fields(fs, d, env):
    envs = [env]
    for n, q in fs:
        if n not in d and n[0] == "f" and n[1:] in d:
            n = n[1:]
        if n not in d:
            return
        envs = [e2 for e in envs for e2 in match(q, d[n], e)]
    yield from envs


def _flat(ops, t):
    for a in t.args:
        if isinstance(a, Term) and a.op in ops:
            yield from _flat(ops, a)
        else:
            yield a


def _seq(ps, ts, env):
    ps = list(ps)
    rest = bool(ps) and ps[-1] == ("rest",)
    if rest:
        ps = ps[:-1]
        if len(ts) < len(ps):
            return
        ts = ts[:len(ps)]
    if len(ps) != len(ts):
        return
    envs = [env]
    for p, t in zip(ps, ts):
        if not isinstance(t, Term):
            if isinstance(t, tuple):
                t = T("tup", *t)
            else:
                t = C(t) if isinstance(t, (int, str, bytes)) else T("opaque")
        envs = [e2 for e in envs for e2 in match(p, t, e)]
        if not envs:
            return
    yield from envs


def _perm(ps, ts, env):
    if len(ps) != len(ts):
        return
    if not ps:
        yield env
        return
    for i, t in enumerate(ts):
        for e in match(ps[0], t, env):
            yield from _perm(ps[1:], ts[:i] + ts[i + 1:], e)


def eqv(a, b):
    """same value number, modulo load epochs and casts"""
    if a is b:
        return True
    a, b = strip(a), strip(b)
    if a is b:
        return True
    if a.op != b.op:
        return False
    if a.op == "ld":
        return a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]) and all(eqv(x, y) for x, y in zip(a.args[1], b.args[1]))
    if a.op == "call":
        return a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]) and all(eqv(x, y) for x, y in zip(a.args[1], b.args[1]))
    if a.op == "c" or len(a.args) != len(b.args):
        return False
    for x, y in zip(a.args, b.args):
        if not _eqa(x, y):
            return False
    return True


def _eqa(x, y):
    if isinstance(x, Term) and isinstance(y, Term):
        return eqv(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_eqa(p, q) for p, q in zip(x, y))
    return x == y


# ---- facts -----------------------------------------------------------------------------------------
def _fact(n):
    if isinstance(n, ast.BoolOp):
        return ("and" if isinstance(n.op, ast.And) else "or",) + tuple(_fact(x) for x in n.values)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return ("neg", _fact(n.operand))
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        a, b = _comp(n.left), _comp(n.comparators[0])
        o = type(n.ops[0])
        if o is ast.Eq:
            return ("eq", a, b, True)
        if o is ast.NotEq:
            return ("eq", a, b, False)
        if o is ast.Lt:
            return ("lt", a, b, True)
        if o is ast.Gt:
            return ("lt", b, a, True)
        if o is ast.LtE:
            return ("lt", b, a, False)
        if o is ast.GtE:
            return ("lt", a, b, False)
        if o is ast.In:
            return ("contains", b, a, True)
        if o is ast.NotIn:
            return ("contains", b, a, False)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
        f = n.func.id
        a = n.args
        if f in ("good", "some", "ok", "exists"):
            return ("good", _comp(a[0]), True)
        if f in ("bad", "none", "absent"):
            return ("good", _comp(a[0]), False)
        if f == "empty":
            return ("atom", ("op", "empty", (_comp(a[0]),)), True)
        if f == "nonempty":
            return ("atom", ("op", "empty", (_comp(a[0]),)), False)
        if f == "isv":
            return ("isv", _comp(a[0]), a[1].value, True)
        if f == "notv":
            return ("isv", _comp(a[0]), a[1].value, False)
        if f == "truth":
            return ("atom", _comp(a[0]), True)
        if f == "false":
            return ("atom", _comp(a[0]), False)
        if f == "origin":
            return ("origin", a[0].value)
        if f == "refused":       # the origin check failed
            return ("refused", a[0].value)
        if f == "does":          # the trace class contains this effect
            return ("does", _eff(a[0]))
        if f == "m_":            # a bound term matches a pattern
            return ("mterm", a[0].id, _comp(a[1]))
        if f == "always":
            return ("always",)
    if isinstance(n, ast.Constant) and n.value is True:
        return ("always",)
    if isinstance(n, ast.Constant) and n.value is True:
        return ("always",)
    raise PatError("unsupported fact %s" % ast.dump(n))


def equal_to(t):
    """x, when the term says that some element of the collection equals x"""
    q = t.args[1]
    for _ in range(2):
        if not isinstance(q, (tuple, list)) or len(q) != 1:
            return None
        q = q[0]
    if not isinstance(q, (tuple, list)) or len(q) != 2 or q[1] is not True or q[0].op != "eq":
        return None
    a, b = q[0].args
    el = T("elem", t.args[0])
    if a is el:
        return b
    return a if b is el else None


def neg(f):
    k = f[0]
    if k == "and":
        return ("or",) + tuple(neg(x) for x in f[1:])
    if k == "or":
        return ("and",) + tuple(neg(x) for x in f[1:])
    if k == "neg":
        return f[1]
    if k in ("eq", "lt", "contains", "good", "atom", "isv"):
        return f[:-1] + (not f[-1],)
    if k in ("does", "notdoes"):
        return ("notdoes" if k == "does" else "does", f[1])
    raise PatError("cannot negate %r" % (f,))


def _bounds(x, op):
    return (x,) + tuple(x.args) if x.op == op else (x,)


def holds(f, facts, env, tr=None):
    """yield environments under which the fact formula is entailed by the must-facts"""
    k = f[0]
    if k == "always":
        yield env
        return
    if k == "and":
        envs = [env]
        for g in f[1:]:
            envs = [e2 for e in envs for e2 in holds(g, facts, e, tr)]
            if not envs:
                return
            envs = envs[:20]
        yield from envs
        return
    if k == "or":
        for g in f[1:]:
            yield from holds(g, facts, env, tr)
        return
    if k == "neg":
        yield from holds(neg(f[1]), facts, env, tr)
        return
    if k == "mterm":
        if f[1] in env:
            yield from match(f[2], env[f[1]], env)
        return
    if k == "does":
        for x in tr.fx:
            yield from match_eff(f[1], x, env)
        return
    if k == "notdoes":
        if not any(True for x in tr.fx for _ in match_eff(f[1], x, env)):
            yield env
        return
    if k == "refused":
        for a, v in facts.items():
            if not v and a.op == "good?" and a.args[0].op == "origin" and fnmatch.fnmatchcase(a.args[0].args[0], f[1]):
                yield env
                return
        return
    if k == "origin":
        for a, v in facts.items():
            if v and a.op == "good?" and a.args[0].op == "origin" and fnmatch.fnmatchcase(a.args[0].args[0], f[1]):
                yield env
        return
    if k == "eq":
        a, b, want = f[1:]
        # both sides ground: value-number comparison
        yield from _ground_eq(a, b, want, env)
        for at, v in facts.items():
            if at.op == "eq":
                if v == want:
                    x, y = at.args
                    yield from _seq((a, b), (x, y), env)
                    yield from _seq((b, a), (x, y), env)
            elif at.op == "lt" and v is True and not want:
                x, y = at.args
                yield from _seq((a, b), (x, y), env)
                yield from _seq((b, a), (x, y), env)
            elif at.op == "empty":
                # len(x) == 0
                if v == want:
                    yield from _seq((a, b), (T("len", at.args[0]), ZERO), env)
            elif at.op == "forall" and at.args[2] == want and v is True and isinstance(at.args[1], Term) and at.args[1].op == "eq":
                x, y = at.args[1].args
                yield from _seq((a, b), (x, y), env)
                yield from _seq((b, a), (x, y), env)
        if want:
            # a variant known to be a unit variant
            for at, v in facts.items():
                if at.op == "is" and v:
                    yield from _seq((a, b), (at.args[0], T("var", at.args[1], ())), env)
                    yield from _seq((b, a), (at.args[0], T("var", at.args[1], ())), env)
                # bare boolean atoms
            for at, v in facts.items():
                if at.op not in ("eq", "lt", "is", "good?", "forall", "empty", "contains"):
                    yield from _seq((a, b), (at, TRUE if v else FALSE), env)
        else:
            for at, v in facts.items():
                if at.op == "is" and not v:
                    yield from _seq((a, b), (at.args[0], T("var", at.args[1], ())), env)
                    yield from _seq((b, a), (at.args[0], T("var", at.args[1], ())), env)
                if at.op == "is" and v:
                    # x is V  =>  x != W
                    for p, q in ((a, b), (b, a)):
                        if q[0] == "lit" and q[1].op == "var" and q[1].args[0] != at.args[1] or q[0] == "var" and q[1] != at.args[1]:
                            yield from match(p, at.args[0], env)
        return
    if k == "lt":
        a, b, want = f[1:]
        if not want:
            # a >= b by the shape of the two values: the same value, a maximum over b, a minimum over a
            x, y = _inst(a, env), _inst(b, env)
            if y is not None:
                for m in (y,) + (y.args if y.op == "min" else ()):
                    yield from match(a, m, env)
            if x is not None:
                for m in (x,) + (x.args if x.op == "max" else ()):
                    yield from match(b, m, env)
        for at, v in facts.items():
            if at.op == "lt" and ((at.args[1] if v else at.args[0]).op == "min" or (at.args[0] if v else at.args[1]).op == "max"):
                # below a minimum: below each of its terms; below or above a maximum likewise
                for x in _bounds(at.args[0], "max" if v else "min"):
                    for y in _bounds(at.args[1], "min" if v else "max"):
                        if v == want:
                            yield from _seq((a, b), (x, y), env)
                        elif v is True and not want:
                            yield from _seq((b, a), (x, y), env)
            if at.op == "lt":
                x, y = at.args
                if v == want:
                    yield from _seq((a, b), (x, y), env)
                if v is True and not want:
                    # x < y entails not (y < x)
                    yield from _seq((b, a), (x, y), env)
            elif at.op == "eq":
                if v is True and not want:
                    yield from _seq((a, b), at.args, env)
                    yield from _seq((b, a), at.args, env)
                # 0 < x <=> x != 0 ; x < 1 <=> x == 0
                x, y = at.args
                for p, q in ((x, y), (y, x)):
                    if p is ZERO:
                        if want and not v:
                            yield from _seq((a, b), (ZERO, q), env)
                        if not want and v:
                            yield from _seq((a, b), (ZERO, q), env)
                        if want == v:
                            yield from _seq((a, b), (q, ONE), env)
            elif at.op == "empty":
                if want != v:
                    yield from _seq((a, b), (ZERO, T("len", at.args[0])), env)
                if want == v:
                    yield from _seq((a, b), (T("len", at.args[0]), ONE), env)
        # the checked subtraction x - y is defined only if not (x < y): normalised by the engine
        return
    if k == "good":
        p, want = f[1:]
        for at, v in facts.items():
            if at.op == "good?" and v == want:
                yield from match(p, at.args[0], env)
            elif at.op == "empty" and v != want:
                # there is a first element iff the collection is not empty
                yield from match(p, T("get", at.args[0], ZERO), env)
        return
    if k == "isv":
        p, n, want = f[1:]
        for at, v in facts.items():
            if at.op == "is":
                if fnmatch.fnmatchcase(at.args[1], n) and v == want:
                    yield from match(p, at.args[0], env)
                elif not want and v and not fnmatch.fnmatchcase(at.args[1], n):
                    yield from match(p, at.args[0], env)
            elif at.op == "eq":
                for x, y in (at.args, at.args[::-1]):
                    if y.op == "var" and not y.args[1] and fnmatch.fnmatchcase(y.args[0], n) and v == want:
                        yield from match(p, x, env)
                    elif y.op == "var" and not y.args[1] and not fnmatch.fnmatchcase(y.args[0], n) and v and not want:
                        yield from match(p, x, env)
        return
    if k == "contains":
        c, x, want = f[1:]
        for at, v in facts.items():
            if at.op == "contains" and v == want:
                yield from _seq((c, x), at.args[:2], env)
            elif at.op == "mc" and at.args[0] in ("contains", "contains_key") and v == want:
                for e in match(c, at.args[1], env):
                    yield from _seq((x,), at.args[2], e)
            elif at.op == "exists" and v == want:
                # some element that equals x
                y = equal_to(at)
                if y is not None:
                    yield from _seq((c, x), (at.args[0], y), env)
            elif at.op == "empty" and v and not want:
                yield from match(c, at.args[0], env)
        return
    if k == "atom":
        p, want = f[1:]
        for at, v in facts.items():
            if v == want:
                yield from match(p, at, env)
            elif at.op == "eq" and want is v or at.op == "eq":
                for x, y in (at.args, at.args[::-1]):
                    if y is TRUE and v == want or y is FALSE and v != want:
                        yield from match(p, x, env)
            elif at.op == "good?" and v != want and at.args[0].op == "get" and at.args[0].args[1] is ZERO:
                yield from match(p, T("empty", at.args[0].args[0]), env)
        # structural emptiness: a literal vector
        if p[0] == "op" and p[1] == "empty":
            x = _inst(p[2][0], env)
            if x is not None and x.op == "vec" and (len(x.args) == 0) == want:
                yield env
        return
    raise PatError("fact %r" % (f,))


def _inst(p, env):
    if p[0] == "lit":
        return p[1]
    if p[0] == "bind":
        return env.get(p[1])
    if p[0] == "f":
        b = _inst(p[1], env)
        if b is not None:
            while b.op == "upd" and p[2] not in dict(b.args[1]):
                b = b.args[0]
            if b.op in ("struct", "upd", "varst") and p[2] in dict(b.args[1]):
                return dict(b.args[1])[p[2]]
            return T("f", b, p[2])
    return None


def _ground_eq(a, b, want, env):
    x = _inst(a, env)
    y = _inst(b, env)
    if x is not None and y is not None:
        if eqv(x, y):
            if want:
                yield env
        elif x.op == "c" and y.op == "c" and not want:
            yield env
    elif x is not None and want:
        yield from match(b, x, env)
    elif y is not None and want:
        yield from match(a, y, env)


# ---- effects ----------------------------------------------------------------------------------------
def _eff(n):
    if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or):
        return ("or",) + tuple(_eff(x) for x in n.values)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
        return ("or", _eff(n.left), _eff(n.right))
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
        f = n.func.id
        a = n.args
        if f in ("put", "rm", "write"):
            tgt = a[0]
            if isinstance(tgt, ast.Subscript):
                name = tgt.value.id
                sl = tgt.slice
                key = tuple(_comp(x) for x in sl.elts) if isinstance(sl, ast.Tuple) else (_comp(sl),)
            else:
                name = tgt.id if isinstance(tgt, ast.Name) else tgt.value
                key = None
            if f == "rm":
                return ("eff", ("del",), name, key, None)
            if f == "write":
                return ("eff", ("put", "del"), name, key, None)
            return ("eff", ("put",), name, key, _comp(a[1]) if len(a) > 1 else None)
        if f == "gives":      # what the closure handed to a foreign method answers
            return ("call", ("gives",), a[0].value, tuple(_comp(x) for x in a[1:]))
        if f == "mc":         # a method call
            return ("call", ("mcall", "call"), a[0].value, tuple(_comp(x) for x in a[1:]))
        if f == "call":
            return ("call", ("call", "mcall"), a[0].value, tuple(_comp(x) for x in a[1:]) if len(a) > 1 else (("rest",),))
        if f == "calls0":
            return ("call", ("call",), a[0].value, ())
        if f == "read":
            return ("call", ("read", "call"), a[0].value, tuple(_comp(x) for x in a[1:]) if len(a) > 1 else (("rest",),))
        if f == "load":
            return ("call", ("load",), a[0].value, (("rest",),))
        if f == "anycall":
            return ("call", ("call", "mcall", "read"), a[0].value, (("rest",),))
        if f == "event":
            pos = [("f%d" % i, _comp(x)) for i, x in enumerate(a[1:]) if not (isinstance(x, ast.Constant) and x.value is Ellipsis)]
            return ("event", a[0].value, tuple(pos) + tuple((k.arg, _comp(k.value)) for k in n.keywords))
        if f == "out":
            return ("call", ("out",), a[0].value, (_comp(a[1]),))
        if f == "setref":
            return ("call", ("set",), "*", (_comp(a[0]), _comp(a[1])))
        if f == "carry":
            return ("call", ("carry",), "*", (_comp(a[0]),))
        if f == "panic":
            return ("kind", "panic")
        if f == "kind":
            return ("kind", a[0].value)
    raise PatError("unsupported effect %s" % ast.dump(n))


def match_eff(p, x, env):
    k = p[0]
    if k == "or":
        for q in p[1:]:
            yield from match_eff(q, x, env)
        return
    if k == "kind":
        if x.kind == p[1]:
            yield env
        return
    if k == "eff":
        if x.kind in p[1] and fnmatch.fnmatchcase(x.name, p[2]):
            envs = [env]
            if p[3] is not None:
                envs = list(_keys(p[3], x.args[0], env))
            if p[4] is not None:
                envs = [e2 for e in envs for e2 in match(p[4], x.args[1], e)]
            yield from envs
        return
    if k == "call":
        if x.kind in p[1] and fnmatch.fnmatchcase(x.name, p[2]):
            yield from _seq(p[3], x.args, env)
        return
    if k == "event":
        if x.kind == "event" and fnmatch.fnmatchcase(x.name, p[1]):
            v = x.args[0]
            if not p[2]:
                yield env
            elif v.op in ("varst", "struct"):
                if all(n in dict(v.args[1]) for n, _ in p[2]):
                    yield from _fields(p[2], dict(v.args[1]), env)
            elif v.op == "var":
                yield from _fields(p[2], {"f%d" % i: y for i, y in enumerate(v.args[1])}, env)
        return
    raise PatError("eff %r" % (p,))
