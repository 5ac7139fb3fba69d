"""Hash-consed value terms: the abstract values of the dataflow analysis."""


class Term:
    __slots__ = ("op", "args", "_h", "_s")

    def __repr__(self):
        return show(self)


_TABLE = {}


def T(op, *args):
    key = (op, args)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t._s = None
        _TABLE[key] = t
    return t


def isT(x):
    return isinstance(x, Term)


def C(v):
    return T("c", v if not isinstance(v, bool) else v, type(v).__name__)


TRUE = C(True)
FALSE = C(False)
UNIT = T("tup")
NONE = T("none")
ZERO = C(0)
ONE = C(1)


def some(x):
    return T("good", x)


def err(x):
    return T("bad", x)


def isint(t):
    return t.op == "c" and t.args[1] == "int"


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if t._s is not None:
        return t._s
    o, a = t.op, t.args
    if o == "c":
        s = repr(a[0])
    elif o == "param":
        s = "$" + str(a[0])
    elif o == "f":
        s = show(a[0]) + "." + str(a[1])
    elif o == "ld":
        s = a[0] + "[" + ",".join(show(x) for x in a[1]) + "]" + ("'" * min(a[2], 3) if a[2] else "")
    elif o == "unw":
        s = show(a[0]) + "?"
    elif o == "call":
        s = a[0] + "(" + ",".join(show(x) for x in a[1]) + ")" + ("#%s" % a[2] if a[2] else "")
    elif o == "mc":
        s = show(a[1]) + "." + a[0] + "(" + ",".join(show(x) for x in a[2]) + ")"
    elif o in ("+", "-", "*", "/", "%", "sat+", "sat-", "sat*", "lt", "eq"):
        s = "(" + (" %s " % o).join(show(x) for x in a) + ")"
    elif o in ("struct", "upd"):
        s = (a[0] if o == "struct" else show(a[0])) + "{" + ",".join("%s:%s" % (k, show(v)) for k, v in a[1]) + "}"
    else:
        s = o + "(" + ",".join(showa(x) for x in a) + ")"
    t._s = s
    return s


def showa(x):
    if isinstance(x, Term):
        return show(x)
    if isinstance(x, tuple):
        return "[" + ",".join(showa(y) for y in x) + "]"
    return str(x)


def subterms(t, seen=None):
    """all sub-terms of t (including t)"""
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


# ---- smart constructors ---------------------------------------------------------------------
def _key(t):
    return show(t)


def flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.args)
        else:
            out.append(x)
    return out


def add(a, b, op="+"):
    xs = flat(op, [a, b])
    k = sum(x.args[0] for x in xs if isint(x))
    xs = [x for x in xs if not isint(x)]
    if k != 0 or not xs:
        xs.append(C(k))
    if len(xs) == 1:
        return xs[0]
    # (a - b) + b  -> a
    xs.sort(key=_key)
    return T(op, *xs)


def mul(a, b, op="*"):
    xs = flat(op, [a, b])
    k = 1
    for x in xs:
        if isint(x):
            k *= x.args[0]
    xs = [x for x in xs if not isint(x)]
    if k == 0:
        return ZERO
    if k != 1 or not xs:
        xs.append(C(k))
    if len(xs) == 1:
        return xs[0]
    xs.sort(key=_key)
    return T(op, *xs)


def sub(a, b, op="-"):
    if isint(b) and b.args[0] == 0:
        return a
    if isint(a) and isint(b):
        return C(max(a.args[0] - b.args[0], 0) if op == "sat-" else a.args[0] - b.args[0])
    if a is b:
        return ZERO
    return T(op, a, b)


def arith(op, a, b, sat=False):
    if op in ("+", "-", "*"):
        # the default of a number is zero
        a, b = (ZERO if x.op == "default" and x.args == ("?",) else x for x in (a, b))
    if op == "+":
        return add(a, b, "sat+" if sat and not (isint(a) and isint(b)) else "+")
    if op == "*":
        return mul(a, b, "sat*" if sat and not (isint(a) and isint(b)) else "*")
    if op == "-":
        return sub(a, b, "sat-" if sat else "-")
    if op in ("/", "%", "<<", ">>", "**", "&", "|", "^"):
        if isint(a) and isint(b):
            x, y = a.args[0], b.args[0]
            try:
                return C({"/": lambda: x // y, "%": lambda: x % y, "<<": lambda: x << y, ">>": lambda: x >> y,
                          "**": lambda: x ** y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]())
            except Exception:
                pass
        if op in ("&", "|", "^"):
            a, b = sorted((a, b), key=_key)
        return T(op, a, b)
    return T(op, a, b)
