"""Obligations over trace classes; every rule is decided from the current source of /repo."""
import fnmatch
import os
import time
from ..engine import Engine, Limit, Trace, Eff, substt
from ..model import head, tystr
from ..pat import P, F, E, match, match_eff, holds, strip, eqv
from .. import pat
from ..terms import *
from ..graph import Graph, walk

REG = {}     # property id -> rule function


def prop(pid):
    def d(f):
        REG.setdefault(pid, []).append(f)
        return f
    return d


class Violation:
    def __init__(self, rule, where, detail, trace=None):
        self.rule = rule
        self.where = where
        self.detail = detail
        self.trace = trace

    def key(self):
        return "%s @ %s: %s" % (self.rule, self.where, self.detail)


class Anchor(Exception):
    pass


WRITES = ("put", "del")


def tr_summary(tr, limit=60):
    out = []
    out.append("outcome: %s" % tr.kind)
    fs = sorted("%s%s" % ("" if v else "NOT ", show(k)) for k, v in tr.facts.items())
    out.append("facts on the path:")
    out.extend("  " + x[:300] for x in fs[:limit])
    out.append("effects on the path:")
    for e in tr.fx:
        if e.kind in ("load", "read", "readargs", "iter"):
            continue
        out.append("  %s  [%s:%s]" % (repr(e)[:300], e.fn.file if e.fn else "?", e.line))
    return out


def layout(t, width=lambda x: None):
    """the pieces, in order, of a buffer that is filled by appending or by copying into fixed positions; runs of one byte are expanded"""
    if t.op == "vec":
        return list(t.args)
    if t.op == "f" and t.args[1] == "0" and t.args[0].op == "default" and t.args[0].args[0] in ("H160", "H256"):
        return [ZERO] * (20 if t.args[0].args[0] == "H160" else 32)
    if t.op == "call" and len(t.args[1]) == 1 and t.args[0].split("::")[-1] in ("from_slice", "from"):
        return layout(t.args[1][0], width)
    if t.op == "upd" and len(t.args[1]) == 1 and t.args[1][0][0] == "0":
        return layout(t.args[1][0][1], width)
    if t.op == "rep" and isint(t.args[1]) and t.args[1].args[0] <= 256:
        return [t.args[0]] * t.args[1].args[0]
    if t.op == "mut" and t.args[0] in ("extend", "extend_from_slice", "push", "append") and len(t.args[2]) == 1:
        a, x = layout(t.args[1], width), t.args[2][0]
        b = [x] if t.args[0] == "push" else layout(x, width)
        return None if a is None or b is None else a + b
    if t.op == "concat" or t.op == "it" and t.args[0] == "chain":
        r = [layout(x, width) for x in t.args if isT(x)]
        return None if any(x is None for x in r) else sum(r, [])
    if t.op == "updelem":
        k, v = t.args[1:3]
        k = k.args[1] if k.op == "idx" else k
        a = layout(t.args[0], width)
        if v.op == "mut" and v.args[0] in ("copy_from_slice", "clone_from_slice"):
            v = v.args[2][0]
        b = layout(v, width)
        if a is None or b is None or k.op != "range" or not isint(k.args[0]):
            return None
        lo, hi = k.args[0].args[0], k.args[1].args[0] if isint(k.args[1]) else len(a) if k.args[1] is NONE else -1
        return a[:lo] + b + a[hi:] if hi - lo == len(b) and hi <= len(a) else None
    n = width(t)
    return [T("byte", t, i) for i in range(n)] if n else None


def handed_on(v):
    """a returned value, and the result it was taken from: Ok(x?) hands on x"""
    yield v
    if v.op == "good" and len(v.args) == 1 and v.args[0].op == "unw" and v.args[0].args[0].op in ("call", "mc"):
        yield v.args[0].args[0]
    if v.op == "bad" and len(v.args) == 1 and v.args[0].op == "err" and v.args[0].args[0].op in ("call", "mc"):
        yield v.args[0].args[0]


def keeps(t):
    """(collection, [(conditions under which an element stays)]) for a filtered collection"""
    if t.op == "coll" and isinstance(t.args[1], tuple):
        return t.args[0], [dict(c.args[0]) for c in t.args[1] if c.op == "case"]
    if t.op == "coll" and len(t.args) == 3 and t.args[1] is T("elem", t.args[0]):
        return t.args[0], [dict(t.args[2])]
    if t.op == "mut" and t.args[0] == "retain":
        c = t.args[2][0]
        if c.op == "cases":
            r = []
            for w in c.args[0]:
                v, d = w.args[1], dict(w.args[0])
                if v is FALSE:
                    continue
                if v is not TRUE:
                    d[v.args[0] if v.op == "not" else v] = v.op != "not"
                r.append(d)
            return t.args[1], r
        if c.op == "not":
            return t.args[1], [{c.args[0]: False}]
        return t.args[1], [{c: True}]
    return None


def truth_table(classes, n, atom):
    """the boolean function of n atoms described by the classes; atom(term, env) -> (index, polarity) or None"""
    rows = []
    for c in classes:
        r = []
        for a, v in c.items():
            i = atom(a)
            if i is None:
                return None
            r.append((i[0], i[1] == v))
        rows.append(r)
    return [any(all(bool(k >> i & 1) == v for i, v in r) for r in rows) for k in range(1 << n)]


class Entry:
    """all trace classes of one entry point"""

    def __init__(self, ctx, fn, traces, eng):
        self.ctx = ctx
        self.fn = fn
        self.all = traces
        self.eng = eng
        self.ok = [t for t in traces if t.kind == "ok"]
        self.err = [t for t in traces if t.kind == "err"]
        self.loops = [t for t in eng.loop_traces]
        self.where = fn.qual

    # -- helpers
    def sel(self, mode):
        if mode == "ok":
            return self.ok
        if mode == "all":
            return self.all + self.loops
        if mode == "loop":
            return self.loops
        if mode == "err":
            return self.err
        return mode

    def req(self, rule, fact, when=None, traces="ok", env=None):
        """on every selected trace class (entailing `when`) the fact formula is entailed"""
        f = F(fact)
        w = F(when) if when else None
        n = 0
        bad = None
        for t in self.sel(traces):
            envs = [env or {}]
            if w is not None:
                envs = list(holds(w, t.facts, env or {}, t))
                if not envs:
                    continue
            n += 1
            self.ctx.obl += 1
            for e in envs[:8]:
                if not any(True for _ in holds(f, t.facts, e, t)):
                    bad = bad or t
                    break
        self.ctx.note(self, rule, n, fact if not when else "%s => %s" % (when, fact))
        if bad is not None:
            self.ctx.violation(rule, self.where, "a successful path does not establish: %s" % fact, bad)
        if n == 0 and not when:
            self.ctx.violation(rule, self.where, "no successful path found (anchor lost)")
        return bad is None

    def each(self, rule, eff, fact=None, at="trace", traces="ok", floor=1, env=None):
        """every occurrence of the effect is dominated by the fact formula (bindings of the effect pattern are shared)"""
        p = E(eff)
        f = F(fact) if fact else None
        n = 0
        for t in self.sel(traces):
            for x in t.fx:
                envs = list(match_eff(p, x, env or {}))
                if not envs:
                    continue
                n += 1
                self.ctx.obl += 1
                if f is None:
                    continue
                facts = t.facts if at == "trace" else x.facts
                if not any(True for e in envs for _ in holds(f, facts, e, t)):
                    self.ctx.violation(rule, self.where, "%s is reached without establishing: %s" % (effname(x), fact), t, x)
                    self.ctx.note(self, rule, n, "%s requires %s" % (eff, fact))
                    return False
        self.ctx.note(self, rule, n, "%s requires %s" % (eff, fact))
        if n < floor:
            for t in self.sel(traces):
                for x in t.fx:
                    for y in renamed(t, x):
                        envs = list(match_eff(p, y, env or {}))
                        if envs:
                            n += 1
                            if f is not None and not any(True for e in envs for _ in holds(f, t.facts if at == "trace" else x.facts, e, t)):
                                self.ctx.violation(rule, self.where, "%s is reached without establishing: %s" % (effname(x), fact), t, x)
                                return False
                            break
        if n < floor:
            self.ctx.violation(rule, self.where, "expected effect never occurs: %s" % eff)
            return False
        return True

    def must(self, rule, eff, when=None, unless=None, traces="ok", count=None, env=None, partial=False):
        """on every selected trace class (entailing `when`, not entailing `unless`) the effect occurs"""
        p = E(eff)
        w = F(when) if when else None
        u = F(unless) if unless else None
        n = 0
        for t in self.sel(traces):
            envs = [env or {}]
            if w is not None:
                envs = list(holds(w, t.facts, env or {}, t))
                if not envs:
                    continue
            if u is not None and any(True for e in envs for _ in holds(u, t.facts, e, t)):
                continue
            n += 1
            self.ctx.obl += 1
            ms = 0
            hits = []
            for x in t.fx:
                if any(True for e in envs for _ in match_eff(p, x, e)):
                    ms += 1
                    hits.append(x)
            if hits and not partial:
                cut = [y.ctx for y in t.fx if y.kind == "stop"]
                if cut and all(any(x.ctx[:len(c)] == c for c in cut) for x in hits):
                    self.ctx.violation(rule, self.where, "the loop ends before every element had the effect: %s" % eff, t)
                    self.ctx.note(self, rule, n, "must " + eff)
                    return False
            if ms == 0:
                ms = sum(1 for x in t.fx if any(True for y in renamed(t, x) for e in envs for _ in match_eff(p, y, e)))
            if ms == 0 or (count is not None and ms != count):
                self.ctx.violation(rule, self.where, ("a successful path lacks the effect: %s" % eff) if ms == 0 else ("the effect occurs %d times instead of %d: %s" % (ms, count, eff)), t)
                self.ctx.note(self, rule, n, "must " + eff)
                return False
        self.ctx.note(self, rule, n, "must %s%s%s" % (eff, " when " + when if when else "", " unless " + unless if unless else ""))
        if n == 0:
            self.ctx.violation(rule, self.where, "no path on which the obligation applies (anchor lost): %s" % eff)
            return False
        return True

    def only(self, rule, kind, names, allowed, traces="ok", env=None, floor=0):
        """every effect of the class (kind, name glob) matches one of the allowed (pattern[, fact]) entries"""
        al = [(E(a), None) if isinstance(a, str) else (E(a[0]), F(a[1])) for a in allowed]
        kinds = (kind,) if isinstance(kind, str) else kind
        ns = (names,) if isinstance(names, str) else names
        n = 0
        for t in self.sel(traces):
            for x in t.fx:
                if x.kind not in kinds or not any(fnmatch.fnmatchcase(x.name, g) for g in ns):
                    continue
                n += 1
                self.ctx.obl += 1
                ok = False
                pat.PERMIT = True
                for a, f in al:
                    for e in match_eff(a, x, env or {}):
                        if f is None or any(True for _ in holds(f, t.facts, e, t)):
                            ok = True
                            break
                    if ok:
                        break
                if not ok:
                    ok = any(f is None or any(True for _ in holds(f, t.facts, e, t)) for y in renamed(t, x) for a, f in al for e in match_eff(a, y, env or {}))
                pat.PERMIT = False
                if not ok:
                    self.ctx.violation(rule, self.where, "%s is not one of the permitted forms %s" % (
                        effname(x), "; ".join(a if isinstance(a, str) else "%s [if %s]" % a for a in allowed)), t, x)
                    self.ctx.note(self, rule, n, "only")
                    return False
        self.ctx.note(self, rule, n, "%s of %s limited to: %s" % ("/".join(kinds), "|".join(ns), "; ".join(a if isinstance(a, str) else "%s [if %s]" % a for a in allowed) or "none"))
        if n < floor:
            self.ctx.violation(rule, self.where, "expected effect class never occurs: %s %s" % (kinds, ns))
            return False
        return True

    def order(self, rule, first, then, traces="ok"):
        """whenever `then` occurs, `first` occurred earlier on the same trace class (shared bindings)"""
        a, b = E(first), E(then)
        n = 0
        for t in self.sel(traces):
            for i, x in enumerate(t.fx):
                for e in match_eff(b, x, {}):
                    n += 1
                    self.ctx.obl += 1
                    if not any(True for y in t.fx[:i] for _ in match_eff(a, y, e)):
                        self.ctx.violation(rule, self.where, "%s is not preceded by %s" % (effname(x), first), t, x)
                        return False
        self.ctx.note(self, rule, n, "%s before %s" % (first, then))
        if n == 0:
            self.ctx.violation(rule, self.where, "expected effect never occurs: %s" % then)
            return False
        return True

    def fresh(self, rule, eff, reader, traces="ok"):
        """the values of a read-only interface call inside the effect were read after every earlier change, on the same
        path, of the same item (first argument) and holder (any other argument)"""
        p = E(eff)
        n = 0
        for t in self.sel(traces):
            for i, x in enumerate(t.fx):
                if not any(True for _ in match_eff(p, x, {})):
                    continue
                for a in x.args:
                    if not isT(a):
                        a = T("tup", *a)
                    for r in subterms(a):
                        if r.op != "call" or not fnmatch.fnmatchcase(r.args[0], reader):
                            continue
                        n += 1
                        self.ctx.obl += 1
                        iface = r.args[0].split("::")[0]
                        for m in t.fx[:i]:
                            if m.kind != "call" or m.name.split("::")[0] != iface or not isT(m.extra) or m.extra.op != "call" or not m.args:
                                continue
                            if not eqv(m.args[0], r.args[1][0]) or not any(eqv(b, r.args[1][1]) for b in m.args[1:]):
                                continue
                            if r.args[2] <= m.extra.args[2]:
                                self.ctx.violation(rule, self.where, "%s uses a value of %s read before the call %s changed it" % (effname(x), r.args[0], m.name), t, x)
                                return False
        self.ctx.note(self, rule, n, "%s inside %s are read after every earlier change of the same item and holder" % (reader, eff))
        if n == 0:
            self.ctx.violation(rule, self.where, "no value of %s inside %s (anchor lost)" % (reader, eff))
        return True

    def on(self, fact, traces="ok"):
        """traces on which a fact holds"""
        f = F(fact)
        return [t for t in self.sel(traces) if any(True for _ in holds(f, t.facts, {}, t))]

    def giving(self, pat, traces="ok"):
        """traces returning a value of the given form"""
        p = P(pat)
        r = [t for t in self.sel(traces) if t.val is not None and any(True for _ in match(p, t.val, {}))]
        if pat in ("true", "false"):      # a returned comparison gives this answer when it holds
            for t in self.sel(traces):
                v, want = t.val, pat == "true"
                while isT(v) and v.op == "not":
                    v, want = v.args[0], not want
                if isT(v) and v.op in ("eq", "lt", "good?", "empty", "exists", "is") and v not in t.facts:
                    u = Trace.__new__(Trace)
                    u.facts, u.fx, u.kind, u.val, u.st = dict(t.facts), t.fx, t.kind, TRUE if pat == "true" else FALSE, t.st
                    u.facts[v] = want
                    r.append(u)
        return r

    def returns(self, rule, pat, traces="ok", when=None, unless=None):
        p = P(pat)
        w = F(when) if when else None
        u = F(unless) if unless else None
        n = 0
        for t in self.sel(traces):
            envs = [{}]
            if w is not None:
                envs = list(holds(w, t.facts, {}, t))
                if not envs:
                    continue
            if u is not None and any(True for _ in holds(u, t.facts, {}, t)):
                continue
            n += 1
            self.ctx.obl += 1
            if not any(True for v in handed_on(t.val) for e in envs for _ in match(p, v, e)) and \
                    not (t.val in (TRUE, FALSE) and any(True for e in envs for _ in decided(p, t.val is TRUE, t, e))) and \
                    not any(True for a, b in equals(t) for v in (substt(t.val, a, b),) if v is not t.val for e in envs for _ in match(p, v, e)):
                self.ctx.violation(rule, self.where, "returns %s instead of %s" % (show(t.val)[:160], pat), t)
                return False
        self.ctx.note(self, rule, n, "returns " + pat)
        if n == 0:
            self.ctx.violation(rule, self.where, "no path on which the obligation applies (anchor lost): returns %s" % pat)
            return False
        return True

    def noeffect(self, rule, kinds=("put", "del", "call"), names="*", traces="err", env=None):
        for t in self.sel(traces):
            for x in t.fx:
                if x.kind in kinds and fnmatch.fnmatchcase(x.name, names):
                    self.ctx.violation(rule, self.where, "%s on a path where no effect is allowed" % effname(x), t, x)
                    return False
            self.ctx.obl += 1
        return True


def equals(t):
    """directed pairs of terms the path has found equal"""
    out = []
    for k, v in t.facts.items():
        if v and k.op == "eq":
            a, b = k.args
            if a.op in ("c", "none", "default") or b.op in ("c", "none", "default") or any(x is a for x in subterms(b)) or any(x is b for x in subterms(a)):
                continue
            out += [(a, b), (b, a)]
    return out


def renamed(t, x):
    """the effect written with another name of a value, as far as the path established the equality"""
    for a, b in equals(t):
        args = substt(x.args, a, b)
        if args != x.args:
            yield Eff(x.kind, x.name, args, x.ctx, x.fn, x.line, x.facts, substt(x.extra, a, b) if isT(x.extra) else x.extra)


def decided(p, v, t, env):
    """the path decided the boolean value of the pattern before returning it as a literal"""
    if p[0] == "alt":
        for q in p[1:]:
            yield from decided(q, v, t, env)
    elif p[0] == "op" and p[1] == "good?":
        yield from holds(("good", p[2][0], v), t.facts, env, t)
    elif p[0] == "op" and p[1] in ("eq", "lt", "contains") and len(p[2]) == 2:
        yield from holds((p[1], p[2][0], p[2][1], v), t.facts, env, t)
    elif p[0] == "op" and p[1] == "is":
        yield from holds(("isv", p[2][0], p[2][1][1].args[0] if p[2][1][0] == "lit" else "?", v), t.facts, env, t)
    elif p[0] not in ("any", "bind", "rest", "lit"):
        yield from holds(("atom", p, v), t.facts, env, t)


def effname(x):
    if x.kind in ("put", "del"):
        return "%s %s" % ({"put": "write to", "del": "removal from"}[x.kind], x.name)
    if x.kind == "event":
        return "event " + x.name
    if x.kind in ("call", "mcall", "read"):
        return "call " + x.name
    return x.kind + " " + str(x.name)


class Ctx:
    def __init__(self, pid, model):
        self.pid = pid
        self.m = model
        self.viol = []
        self.obl = 0
        self.notes = []
        self.entries = {}
        self.functions = set()
        self.ntraces = 0
        self.nstmts = 0
        self.tier = os.environ.get("VERIF_TIER", "quick")

    # -- reporting
    def violation(self, rule, where, detail, trace=None, eff=None):
        v = Violation(rule, where, detail)
        v.trace = tr_summary(trace) if trace is not None else None
        if eff is not None and eff.fn is not None:
            v.at = "%s:%s (%s)" % (eff.fn.file, eff.line, eff.fn.qual)
        else:
            v.at = None
        if any(o.key() == v.key() for o in self.viol):
            return
        self.viol.append(v)

    def note(self, entry, rule, n, text):
        self.notes.append({"rule": rule, "where": entry.where if isinstance(entry, Entry) else str(entry), "instances": n, "obligation": text})

    def check(self, rule, where, cond, detail, n=1):
        self.obl += n
        self.note(where, rule, n, detail if cond else "")
        if not cond:
            self.violation(rule, where, detail)
        return cond

    # -- anchors
    def fn(self, crate, name, ty="Pallet", trait=None):
        c = self.m.crates.get(crate) or self.m.pallet(crate) if isinstance(crate, str) else crate
        if c is None:
            return None
        if ty is None:
            l = c.fns.get(name, [])
            return l[0] if l else None
        l = c.methods.get(ty, {}).get(name, [])
        if trait:
            l = [x for x in l if x.trait == trait]
        else:
            l = [x for x in l if x.trait is None] or l
        return l[0] if l else None

    def entry(self, crate, name, ty="Pallet", trait=None, **kw):
        f = self.fn(crate, name, ty, trait)
        if f is None:
            self.violation("anchor", "%s::%s" % (crate, name), "function not found: the guarantee is no longer implemented where it was")
            raise Anchor(name)
        return self.analyse(f, **kw)

    def analyse(self, f, opaque=(), split=False, args=None, facts=None, compact=3000, binds=None, inline_extra=(), outs=False, selector=None):
        key = (id(f), tuple(opaque), split, tuple(args) if args else None, outs, selector)
        if key in self.entries:
            return self.entries[key]
        tr = None
        for comp, sp in ((compact, split), (400, split), (60, split), (60, True)):
            e = Engine(self.m)
            e.opaque = set(opaque)
            e.split_loops = sp
            e.outs = outs
            e.selector = selector
            e.compact_at = comp
            e.deadline = time.time() + 100
            e.inline_extra = set(inline_extra)
            if binds:
                e.traits_inline = binds
            try:
                tr = e.traces(f, args=args, facts=facts)
                break
            except Limit:
                tr = None
        if tr is None:
            self.violation("analysis-limit", f.qual, "the trace classes of the function exceed the analysis limit; property not established")
            raise Anchor(f.qual)
        self.functions |= e.inlined
        self.ntraces += len(tr) + len(e.loop_traces)
        self.nstmts += e.nodes_visited
        en = Entry(self, f, tr, e)
        self.entries[key] = en
        return en


def graph(ctx):
    g = getattr(ctx.m, "_graph", None)
    if g is None:
        g = ctx.m._graph = Graph(ctx.m)
    return g


def writer_table(ctx, rule, crate, table, ignore=("migrations", "migration")):
    """every storage of the table is written only on behalf of the listed entry points (helpers are attributed to the
    entry points that reach them)"""
    c = ctx.m.crates.get(crate) or ctx.m.pallet(crate)
    g = graph(ctx)
    for sto, allowed in table.items():
        if sto not in c.storages:
            ctx.violation("anchor", crate + "::" + sto, "storage not found: the guarantee is no longer implemented where it was")
            continue
        n = 0
        for f in g.writers(c, sto):
            if any("/" + x in f.file for x in ignore) or f.trait in ("BuildGenesisConfig", "GenesisBuild", "OnRuntimeUpgrade"):
                continue
            for root in g.roots(f):
                if root.trait in ("BuildGenesisConfig", "GenesisBuild", "OnRuntimeUpgrade"):
                    continue
                n += 1
                ctx.obl += 1
                nm = (root.trait + "::" + root.name) if root.trait else root.name
                if nm not in allowed and root.name not in allowed:
                    ctx.violation(rule, root.qual, "writes the storage %s (in %s), which only %s may do" % (sto, f.name, ", ".join(sorted(allowed)) or "no function"))
        ctx.note(crate, rule, n, "%s is written only on behalf of: %s" % (sto, ", ".join(sorted(allowed))))
        if n == 0 and allowed:
            ctx.violation(rule, crate + "::" + sto, "storage is never written (anchor lost)")


def show_writers(ctx, crate):
    c = ctx.m.crates.get(crate) or ctx.m.pallet(crate)
    g = graph(ctx)
    out = {}
    for sto in c.storages:
        for f in g.writers(c, sto):
            for root in g.roots(f):
                out.setdefault(sto, set()).add(((root.trait + "::") if root.trait else "") + root.name)
    return out
