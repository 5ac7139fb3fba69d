"""The shared Solidity codec: what is read from call data, what is written as answer, and the selectors."""
import re
from .base import prop, F, P, Anchor, holds, match
from ..terms import TRUE, FALSE, subterms

CR = "precompile-utils"
MAC = "precompile-utils-macro"
READER = "EvmDataReader"
WRITER = "EvmDataWriter"


def window(buf, start, end):
    """buf[start..end], refused unless it lies within the buffer"""
    rg = "op('range', %s, %s)" % (start, end)
    return "alt(mc('get', %s, %s).q, op('slice', %s, %s))" % (buf, rg, buf, rg)


def within(e, rule, buf, start, end):
    """a successful read lies within the buffer"""
    e.req(rule, "good(mc('get', %s, op('range', %s, %s))) or %s <= len(%s)" % (buf, start, end, end, buf))


def fails(e, rule, *facts):
    """a refusal has one of the reasons"""
    for t in e.err:
        e.ctx.obl += 1
        v = t.val.args[0] if t.val.op == "bad" else t.val
        if v.op == "errof" and v.args[0].op == "call" and v.args[0].args[0] == "T::read":
            continue                  # passed on from reading a part
        if not any(True for f in facts for _ in holds(F(f), t.facts, {}, t)):
            e.ctx.violation(rule, e.where, "refuses data for another reason than: " + "; ".join(facts), t)


def generic(ctx, macro, fn):
    """the function that a macro_rules macro writes for each of its types"""
    c = ctx.m.crates.get(CR)
    sub = c.macrodefs.get(macro) if c else None
    fs = [f for d in sub.methods.values() for f in d.get(fn, [])] + sub.fns.get(fn, []) if sub else []
    if not fs:
        ctx.violation("anchor", CR, "%s written by %s! is not found" % (fn, macro))
        raise Anchor(fn)
    return fs


@prop("Y09")
def reading(ctx):
    r = "Y09"

    def rd(ty):
        e = ctx.entry(CR, "read", ty=ty, trait="EvmData", split=True, outs=True)
        return e

    # one word: the 32 bytes at the cursor, which moves past them
    C, B = "P0.cursor", "P0.input"
    word = window(B, C, C + " + 32")
    def short(b, c, n):
        return ("bad(%s + %s)" % (c, n), "bad(mc('get', %s, op('range', %s, %s + %s)))" % (b, c, c, n), "len(%s) < %s + %s" % (b, c, n))
    SHORT = short(B, C, "32")
    for ty, out in (("H256", "call('H256::from_slice', %s)" % word), ("U256", "call('U256::from_big_endian', %s)" % word),
                    ("Address", "call('H160::from_slice', alt(op('slice', %s, op('range', 12, 32)), op('slice', %s, op('range', 12, none)), %s))"
                     % (word, word, window(B, C + " + 12", C + " + 32"))),
                    ("Bytes32PostPad", "struct('Bytes32PostPad', f0=%s)" % word)):
        e = rd(ty)
        e.returns("%s.%s" % (r, ty), "good(%s)" % out)
        within(e, "%s.%s.within" % (r, ty), B, C, C + " + 32")
        e.must("%s.%s.moves" % (r, ty), "out('P0', upd(P0, cursor=%s + 32))" % C)
        e.only("%s.%s.only" % (r, ty), "out", "*", ["out('P0', upd(P0, cursor=%s + 32))" % C], floor=1)
        fails(e, "%s.%s.refused" % (r, ty), *SHORT)
    e = rd("bool")
    w = "call('H256::from_slice', %s)" % word
    e.returns(r + ".bool", "good(alt(op('not', op('eq', 0, %s)), op('not', op('eq', %s, 0)), op('not', mc('is_zero', %s)), true, false))" % (w, w, w))
    for t in e.ok:
        v = t.val.args[0] if t.val.op == "good" else t.val
        if v in (TRUE, FALSE):
            ctx.check(r + ".bool.value", e.where, any(True for _ in holds(F("%s %s 0" % (w, "!=" if v is TRUE or v == TRUE else "==")), t.facts, {}, t)), "zero is false and every other word true")
    e.must(r + ".bool.moves", "out('P0', upd(P0, cursor=%s + 32))" % C)
    for f in generic(ctx, "impl_evmdata_for_uints", "read"):
        e = ctx.analyse(f)
        e.returns(r + ".uint", "wide(call('T::read', P0).q)")
        e.req(r + ".uint.read", "good(call('T::read', P0))")
        e.only(r + ".uint.once", ("call", "read", "mcall"), "*read*", ["read('*T::read', P0)", "call('*T::read', P0)"], floor=1)

    # a pointer leads to data within the same container
    OFF = "call('T::read', %s).q"
    for fn, who in (("read_pointer", "SELF"),):
        e = ctx.entry(CR, fn, ty=READER, split=True, outs=True)
        after = "mut('T::read', SELF)"
        off = OFF % "SELF"
        e.returns(r + ".pointer", "good(struct('EvmDataReader', cursor=0, input=op('slice', %s.input, op('range', wide(%s), alt(none, len(%s.input))))))" % (after, off, after))
        e.req(r + ".pointer.within", "%s < len(%s.input)" % (off, after))
        e.req(r + ".pointer.fits", "good(%s)" % off)
        fails(e, r + ".pointer.refused", "bad(call('T::read', SELF))", "bad(%s)" % off, "len(%s.input) <= %s" % (after, off))

    def inner(who):
        return "struct('EvmDataReader', cursor=0, input=op('slice', mut('T::read', %s).input, op('range', wide(%s), alt(none, len(mut('T::read', %s).input)))))" % (who, OFF % who, who)
    IN = inner("P0")
    N = "call('T::read', %s).q" % IN
    AFTER = "mut('T::read', %s)" % IN
    PTR = ("bad(call('T::read', P0))", "bad(%s)" % (OFF % "P0"), "len(mut('T::read', P0).input) <= %s" % (OFF % "P0"), "bad(call('T::read', %s))" % IN, "bad(%s)" % N, "%s > cfg.S" % N)
    for ty, bound in (("BoundedBytes", "cfg.S"), ("Bytes", "_")):
        e = rd(ty)
        data = "both(has(mc('get', %s.input, op('range', %s.cursor, %s + %s.cursor)).q), nothas(call('rev', ...)))" % (AFTER, AFTER, N, AFTER)
        raw = "mc('get', %s.input, op('range', %s.cursor, %s + %s.cursor)).q" % (AFTER, AFTER, N, AFTER)
        e.returns("%s.%s" % (r, ty), ("good(struct('BoundedBytes', inner=%s))" if ty == "BoundedBytes" else "good(struct('Bytes', f0=%s))") % raw)
        e.req("%s.%s.bound" % (r, ty), "%s <= %s" % (N, bound) if bound != "_" else "good(%s)" % N)
        e.req("%s.%s.pointer" % (r, ty), "%s < len(mut('T::read', P0).input)" % (OFF % "P0"))
        e.only("%s.%s.moves" % (r, ty), "out", "*", ["out('P0', mut('T::read', P0))"], floor=1)
        if bound != "_":
            fails(e, "%s.%s.refused" % (r, ty), *(PTR + short(AFTER + ".input", AFTER + ".cursor", N)))
    for ty in ("BoundedVec",):
        e = rd(ty)
        items = "op('phi', vec(), _)"
        e.returns(r + ".list", "good(struct('BoundedVec', inner=alt(vec(), op('phi', vec(), op('loop', op('range', 0, %s))))))" % N)
        e.returns(r + ".list.whole", "good(struct('BoundedVec', inner=op('phi', vec(), op('loop', op('range', 0, %s)))))" % N, unless="0 == %s" % N)
        e.req(r + ".list.bound", "%s <= cfg.S" % N)
        e.req(r + ".list.pointer", "%s < len(mut('T::read', P0).input)" % (OFF % "P0"))
        fails(e, r + ".list.refused", *(PTR + ("bad(mc('get', %s.input, op('range', 32, none)))" % AFTER, "len(%s.input) < 32" % AFTER, "bad(mc('in_array', _, _))", "bad(call('T::read', _))")))
        start = "struct('EvmDataReader', cursor=0, input=alt(mc('get', %s.input, op('range', 32, none)).q, op('slice', %s.input, op('range', 32, alt(none, len(%s.input))))))" % (AFTER, AFTER, AFTER)
        cur = "op('phi', %s, op('loop', op('range', 0, %s)))" % (start, N)
        item = "call('T::read', %s)" % cur
        acc = "op('phi', vec(), op('loop', op('range', 0, %s)))" % N
        e.only(r + ".list.items", "carry", "*", ["carry(mut('push', %s, has(%s)))" % (acc, item), "carry(mut('T::read', %s))" % cur], floor=2, traces="loop")
        e.must(r + ".list.item", "carry(mut('push', %s, has(%s)))" % (acc, item), count=1, traces="loop")
    e = rd("Vec")
    e.returns(r + ".vec", "good(alt(vec(), op('phi', vec(), op('loop', op('range', 0, _)))))")
    e = ctx.entry(CR, "new_skip_selector", ty=READER, split=True)
    e.returns(r + ".skip", "good(struct('EvmDataReader', cursor=0, input=op('slice', P0, op('range', 4, alt(none, len(P0))))))")
    e.req(r + ".skip.length", "4 <= len(P0)")
    fails(e, r + ".skip.refused", "len(P0) < 4")
    e = ctx.entry(CR, "new", ty=READER, split=True)
    e.returns(r + ".new", "struct('EvmDataReader', cursor=0, input=P0)")
    e = ctx.entry(CR, "read_selector", ty=READER, split=True)
    e.returns(r + ".selector", "good(call('T::try_from_primitive', call('u32::from_be_bytes', alt(mut('copy_from_slice', op('rep', 0, 4), op('slice', P0, op('range', alt(0, none), 4))), has(op('slice', P0, op('range', alt(0, none), 4)))))).q)")
    e.req(r + ".selector.length", "4 <= len(P0)")
    fails(e, r + ".selector.refused", "len(P0) < 4", "bad(call('T::try_from_primitive', _))")
    e = ctx.entry(CR, "expect_arguments", ty=READER, split=True)
    e.req(r + ".arguments", "SELF.cursor + P0 * 32 <= len(SELF.input)")
    fails(e, r + ".arguments.refused", "len(SELF.input) < SELF.cursor + P0 * 32")
    e = ctx.entry(CR, "read_raw_bytes", ty=READER, split=True, outs=True)
    e.returns(r + ".raw", "good(%s)" % window("SELF.input", "SELF.cursor", "P0 + SELF.cursor"))
    within(e, r + ".raw.within", "SELF.input", "SELF.cursor", "P0 + SELF.cursor")
    e.must(r + ".raw.moves", "out('self', upd(SELF, cursor=P0 + SELF.cursor))")
    fails(e, r + ".raw.refused", *short("SELF.input", "SELF.cursor", "P0"))
    e = ctx.entry(CR, "read_till_end", ty=READER, split=True, outs=True)
    end = "alt(len(SELF.input), none, SELF.cursor + sub(len(SELF.input), SELF.cursor))"
    e.returns(r + ".rest", "good(alt(mc('get', SELF.input, op('range', SELF.cursor, %s)).q, op('slice', SELF.input, op('range', SELF.cursor, %s))))" % (end, end))
    e.must(r + ".rest.moves", "out('self', upd(SELF, cursor=%s))" % end)
    e = ctx.entry(CR, "read", ty=READER, split=True)
    e.returns(r + ".read", "call('T::read', SELF)")
    # several values in a row; behind a pointer unless all are of fixed size
    FIX = "(call('Tuple::has_static_size') & call('Tuple::has_static_size'))"
    e = ctx.entry(CR, "has_static_size", ty="Tuple", trait="EvmData", split=True)
    e.returns(r + ".tuple.static", FIX)
    e = rd("Tuple")
    for who, cond in (("P0", {"when": "truth(%s)" % FIX}), (IN, {"unless": "truth(%s)" % FIX})):
        e.returns(r + ".tuple", "good(alt(call('T::read', %s).q, mc('in_tuple', call('T::read', %s), _).q))" % (who, who), **cond)
    # read_args! refuses data shorter than its arguments, whatever they are
    n = 0
    for f in generic(ctx, "read_args", "read_args"):
        if len(f.params) < 3:
            e = ctx.analyse(f)
            e.returns(r + ".args.count", "1 + _" if f.params else "0")
            continue
        n += 1
        e = ctx.analyse(f)
        e.req(r + ".args.selector", "4 <= len(mc('input', P0))")
        e.req(r + ".args.length", "32 * _ <= len(op('slice', mc('input', P0), op('range', 4, none)))")
        e.req(r + ".args.read", "good(mc('in_field', mc('read', struct('EvmDataReader', cursor=0, input=op('slice', mc('input', P0), op('range', 4, none)))), _)) or "
              "good(mc('read', struct('EvmDataReader', cursor=0, input=op('slice', mc('input', P0), op('range', 4, none)))))")
    ctx.check(r + ".args", CR, n == 1, "one rule of read_args! reads the arguments (%d found)" % n)


@prop("Y10")
def writing(ctx):
    r = "Y10"

    def wr(ty):
        return ctx.entry(CR, "write", ty=ty, trait="EvmData", split=True, outs=True)

    def app(x):
        return "out('P0', upd(P0, data=mut('extend', P0.data, %s)))" % x
    for ty, x in (("H256", "alt(P1, op('as_bytes', P1), mc('as_bytes', P1))"), ("Address", "P1.f0"), ("U256", "mut('to_big_endian', op('rep', 0, 32), P1)"),
                  ("Bytes32PostPad", "mut('resize', P1.f0, 32, 0)")):
        e = wr(ty)
        e.must("%s.%s" % (r, ty), app(x), count=1)
        e.only("%s.%s.only" % (r, ty), "out", "*", [app(x)], floor=1)
    e = wr("bool")
    one = app("op('updelem', op('rep', 0, 32), op('idx', op('rep', 0, 32), 31), 1)")
    e.only(r + ".bool.only", "out", "*", [(one, "truth(P1)"), (app("op('rep', 0, 32)"), "false(P1)")], floor=2)
    e.must(r + ".bool", one, when="truth(P1)")
    e.must(r + ".bool", app("op('rep', 0, 32)"), when="false(P1)")
    for f in generic(ctx, "impl_evmdata_for_uints", "write"):
        e = ctx.analyse(f, outs=True)
        x = app("mut('to_big_endian', op('rep', 0, 32), wide(P1))")
        e.must(r + ".uint", x, count=1)
        e.only(r + ".uint.only", "out", "*", [x], floor=1)

    # dynamic data: a placeholder now, the data at the end
    def ptr(who, d):
        return "out('%s', upd(%s, data=mut('extend', %s.data, call('H256::repeat_byte', _)), offset_data=mut('push', %s.offset_data, struct('OffsetDatum', data=%s, offset_position=len(%s.data), offset_shift=0))))" % ("self" if who == "SELF" else who, who, who, who, d, who)
    e = ctx.entry(CR, "write_pointer", ty=WRITER, split=True, outs=True)
    e.must(r + ".pointer", ptr("SELF", "P0"), count=1)
    e.only(r + ".pointer.only", "out", "*", [ptr("SELF", "P0")], floor=1)
    NEW = "struct('EvmDataWriter', data=vec(), offset_data=vec(), selector=none)"
    for ty, x in (("BoundedBytes", "alt(P1, P1.inner)"), ("Bytes", "alt(P1.f0, struct('BoundedBytes', inner=P1.f0))")):
        ln = "len(%s)" % x
        ch = "(%s / 32)" % ln
        size = "alt(%s * 32, (1 + %s) * 32, ((31 + %s) / 32) * 32, mc('next_multiple_of', %s, 32), mc('div_ceil', %s, 32) * 32)" % (ch, ch, ln, ln, ln)
        full = "alt(%s * 32, %s, ((31 + %s) / 32) * 32, mc('next_multiple_of', %s, 32), mc('div_ceil', %s, 32) * 32)" % (ch, ln, ln, ln, ln)
        part = "alt((1 + %s) * 32, ((31 + %s) / 32) * 32, mc('next_multiple_of', %s, 32), mc('div_ceil', %s, 32) * 32)" % (ch, ln, ln, ln)
        w = "mc('write', %s, %s)" % (NEW, ln)

        def body(s):
            return ptr("P0", "mc('build', upd(%s, data=mut('extend', %s.data, mut('resize', %s, %s, 0))))" % (w, w, x, s))
        e = wr(ty)
        e.must("%s.%s" % (r, ty), body(size), count=1)
        e.must("%s.%s.full" % (r, ty), body(full), when="%s %% 32 == 0" % ln)
        e.must("%s.%s.part" % (r, ty), body(part), unless="%s %% 32 == 0" % ln)
    e = wr("BoundedVec")
    w = "mc('write', %s, len(alt(P1, P1.inner)))" % NEW
    e.must(r + ".list", ptr("P0", "mc('build', alt(%s, upd(%s, data=_, offset_data=_)))" % (w, w)), count=1)
    X = "alt(P1, P1.inner)"
    item = "mc('write', %s, elem(%s))" % (NEW, X)
    data = "alt(%s.data, op('phi', %s.data, op('loop', %s)))" % (w, w, X)
    offs = "alt(%s.offset_data, op('phi', %s.offset_data, op('loop', %s)))" % (w, w, X)
    offs2 = "alt(%s, op('phi', %s, op('loop', %s.offset_data)))" % (offs, offs, item)
    el = "elem(%s.offset_data)" % item
    moved = "upd(%s, offset_position=%s.offset_position + len(%s), offset_shift=32 + %s.offset_shift)" % (el, el, data, el)
    e.only(r + ".list.items", "carry", "*", ["carry(upd(%s, data=mut('extend', %s, %s.data), offset_data=alt(%s, mut('push', %s, %s))))" % (w, data, item, offs2, offs2, moved)], floor=1, traces="loop")
    t = [x for x in e.loops]
    e.must(r + ".list.item", "carry(upd(%s, data=mut('extend', ...), offset_data=_))" % w, traces="loop")
    ctx.check(r + ".list.offsets", CR, any(True for x in t for f in x.fx if f.kind == "carry" and "push" in repr(f.args[0]) and "offset_shift" in repr(f.args[0])),
              "the offsets inside list items are moved to the list")
    FIX = "(call('Tuple::has_static_size') & call('Tuple::has_static_size'))"
    e = wr("Tuple")
    e.only(r + ".tuple", "out", "*", [("out('P0', mut('Tuple::write', P0, has(P1)))", "truth(%s)" % FIX), (ptr("P0", "mc('build', mut('Tuple::write', %s, has(P1)))" % NEW), "false(%s)" % FIX)], floor=2)
    e.must(r + ".tuple.each", "out('P0', _)")
    e = ctx.entry(CR, "write", ty=WRITER, split=True)
    e.returns(r + ".write", "mut('T::write', SELF, P0)")
    e = ctx.entry(CR, "write_raw_bytes", ty=WRITER, split=True)
    e.returns(r + ".raw", "upd(SELF, data=mut('extend', SELF.data, P0))")
    for fn, sel in (("new", "none"), ("new_with_selector", "good(P0)")):
        e = ctx.entry(CR, fn, ty=WRITER, split=True)
        e.returns(r + "." + fn, "struct('EvmDataWriter', data=vec(), offset_data=vec(), selector=%s)" % sel)
    # the answer: offsets filled in, data appended in order, the selector in front
    e = ctx.entry(CR, "bake_offsets", ty=WRITER, split=True, outs=True)
    acc = "op('phi', P0, op('loop', P1))"
    pos = "elem(P1).offset_position"
    spot = "op('idx', %s, op('range', %s, 32 + %s))" % (acc, pos, pos)
    e.only(r + ".bake", "carry", "*", ["carry(mut('extend', op('updelem', %s, %s, mut('to_big_endian', %s, len(%s) - elem(P1).offset_shift)), elem(P1).data))" % (acc, spot, spot, acc)], floor=1, traces="loop")
    e.must(r + ".bake.each", "carry(mut('extend', op('updelem', ...), elem(P1).data))", count=1, traces="loop")
    e.must(r + ".bake.all", "out('P0', %s)" % acc, when="nonempty(P1)")
    e = ctx.entry(CR, "build", ty=WRITER, split=True)
    d = "alt(SELF.data, op('phi', SELF.data, op('loop', SELF.offset_data)))"
    e.returns(r + ".build", "alt(%s, mut('extend', mc('to_be_bytes', SELF.selector.q), %s))" % (d, d))
    e.returns(r + ".build.selector", "mut('extend', mc('to_be_bytes', SELF.selector.q), %s)" % d, when="good(SELF.selector)")
    e.returns(r + ".build.plain", d, unless="good(SELF.selector)")
    e.returns(r + ".build.baked", "has(op('phi', SELF.data, op('loop', SELF.offset_data)))", when="nonempty(SELF.offset_data)")
    # which types are written in place
    for ty, v in (("H256", "true"), ("Address", "true"), ("U256", "true"), ("bool", "true"), ("Bytes32PostPad", "true"), ("Bytes", "false"), ("BoundedBytes", "false"), ("Vec", "false"), ("BoundedVec", "false")):
        e = ctx.entry(CR, "has_static_size", ty=ty, trait="EvmData", split=True)
        e.returns("%s.%s.static" % (r, ty), v)
    for f in generic(ctx, "impl_evmdata_for_uints", "has_static_size"):
        ctx.analyse(f).returns(r + ".uint.static", "true")


HEX = re.compile(r"(\{:#(04|02)?[xX]\}|0x\{:(02)?[xX]\}|\{\})(u8)?$")


def rendered(ctx, r):
    """Bytes are shown as `[0x01u8, 0x02, ..]`: every byte once, in order, the first one with its type"""
    e = ctx.entry(MAC, "fmt", ty="Bytes", split=True, outs=True)
    X = "SELF.f0"
    FIRST = P("alt(op('idx', %s, 0), op('get', %s, 0).q, op('next', %s).q, mc('first', %s).q, op('nth', %s, 0).q)" % (X, X, X, X, X))
    REST = P("elem(op('it', 'skip', %s, 1))" % X)
    ANY = P("elem(%s)" % X)
    is_ = lambda p, v: any(True for _ in match(p, v, {}))
    bad = lambda t, w: ctx.violation(r, e.where, "the bytes are not shown as a list of byte literals: %s" % w, t)

    def toks(t, tr):
        """what is written: literal text and 'F'/'R' for the first and a further byte; '*' for a loop"""
        if t.op == "phi":
            return toks(t.args[0], tr) + ["*"]
        if t.op == "mut" and t.args[0] == "write":
            out = toks(t.args[1], tr)
            f, vals = t.args[2][0], [v for v in t.args[2][1:] if v.op != "c" or v.args[0] != ""]
            f = f.args[0] if f.op == "c" else None
            if f is None:
                return out + ["?"]
            i = 0
            for piece in re.split(r"((?:0x)?\{[^}]*\}(?:u8)?)", str(f)):
                if "{" in piece:
                    v = vals[i] if i < len(vals) else None
                    i += 1
                    if v is None or not HEX.match(piece):
                        return out + ["?"]
                    c = "F" if is_(FIRST, v) else "R" if is_(REST, v) else None
                    if c is None and is_(ANY, v):
                        if any(True for _ in holds(F("op('pos', %s) == 0" % X), tr.facts, {}, tr)):
                            c = "F"
                        elif any(True for _ in holds(F("op('pos', %s) != 0" % X), tr.facts, {}, tr)) or any(x.op == "next" for k in tr.facts for x in subterms(k)):
                            c = "R"
                        else:
                            return out + ["?"]
                    if c == "F" and not piece.endswith("u8"):
                        c = "f"
                    out.append(c or "?")
                elif piece:
                    out.append(piece)
            return out
        return []
    forms, steps = set(), set()
    for t in e.ok:
        for x in t.fx:
            if x.kind == "out" and x.name == "P0":
                forms.add((t, "".join(toks(x.args[0], t))))
    for t in e.loops:
        for x in t.fx:
            if x.kind == "carry" and x.args[0].op == "mut":
                s = "".join(toks(x.args[0], t))
                steps.add((t, s[s.index("*") + 1:] if "*" in s else s))
    ctx.obl += len(forms) + len(steps)
    ctx.note(e, r, len(forms) + len(steps), "bytes are written as a list of literals")
    whole = False
    for t, s in forms:
        if s not in ("[]", "[F]", "[F*]", "[*]"):
            bad(t, "writes %s" % s)
        if s == "[]" and not any(True for _ in holds(F("empty(%s) or absent(op('next', %s)) or absent(op('get', %s, 0))" % (X, X, X)), t.facts, {}, t)):
            bad(t, "writes [] although there are bytes")
        whole = whole or s == "[*]"
    seen = {s for _, s in steps}
    for t, s in steps:
        if s != ", R" and not (whole and s == "F"):
            bad(t, "each further byte is written as %s" % s)
    fs = {s for _, s in forms}
    ctx.check(r, e.where, ", R" in seen and ("[F*]" in fs or "[*]" in fs and "F" in seen) and "[]" in fs, "every byte is written, none twice")


def written(ctx, r):
    """the quoted program: each variant stands for its own selector, the hash is the program"""
    e = ctx.entry(MAC, "generate_function_selector", ty=None, split=True)
    pushed = {}
    for t in list(e.loops) + list(e.ok):
        for x in t.fx:
            if x.kind == "carry" and x.args[0].op == "mut" and x.args[0].args[0] == "push":
                pushed.setdefault(x.args[0].args[1], []).append(x.args[0].args[2][0])

    def elements(v):
        if v.op == "phi":
            return pushed.get(v, [])
        if v.op == "coll":
            c = v.args[1]
            return [y.args[1] if y.op == "case" else y for y in c] if isinstance(c, tuple) else [c]
        if v.op == "mut" and v.args[0] == "push":
            return elements(v.args[1]) + [v.args[2][0]]
        return []

    def pairs(q):
        """(identifier, number) written for one variant"""
        text, vals = q.args[0].args[0], q.args[1]
        out = []
        for m in re.finditer(r"#(\d+)=#(\d+)", text):
            out.append((vals[int(m.group(1))], vals[int(m.group(2))]))
        return out
    ident = P("elem(_).ident")
    number = P("has(call('*u32_suffixed', _))")
    ok = lambda p, v: any(True for _ in match(p, v, {}))
    n = 0
    texts = []
    for t in e.ok:
        for q in (x for x in subterms(t.val) if x.op == "quote" and "repr(" in x.args[0].args[0]):
            texts.append(q.args[0].args[0])
            for a, b in pairs(q):
                for xs, p, what in ((elements(a), ident, "the variant's name"), (elements(b), number, "the variant's selector")):
                    for v in xs:
                        n += 1
                        ctx.check(r, e.where, ok(p, v), "what is written for a variant is %s" % what)
            for v in q.args[1]:
                for x in elements(v):
                    if x.op == "quote":
                        for a, b in pairs(x):
                            n += 1
                            ctx.check(r, e.where, ok(ident, a) and ok(number, b), "what is written for a variant is its name and its selector")
    ctx.check(r, e.where, n >= 1 and texts, "each variant stands for its own selector")
    ctx.check(r, e.where, texts and all("repr(u32)" in x for x in texts), "selectors are 32 bits")
    ctx.check(r, e.where, texts and all("TryFromPrimitive" in x for x in texts), "the numbers are decoded back")
    e = ctx.entry(MAC, "keccak256", ty=None, split=True)
    H = P("has(op('fmt', '{:?}', struct('*', f0=call('Keccak256::digest', _))))")
    vals = [v for t in e.ok for v in ([q for q in subterms(t.val) if q.op == "quote"] or [t.val])]
    ctx.check(r, e.where, vals and all((v.op != "quote" or v.args[0].args[0] == "#0" and len(v.args[1]) == 1) and ok(H, v.args[1][0] if v.op == "quote" else v) for v in vals), "the hash is what is written")


@prop("Y11")
def selectors(ctx):
    r = "Y11"
    e = ctx.entry(MAC, "generate_function_selector", ty=None, split=True)
    item = "op('vp', op('macro', ...), 'ItemEnum', 'variants')"
    LIT = "op('vp', op('vp', op('vp', elem(_).discriminant.q.f1, 'Lit', 0), 'ExprLit', 'lit'), 'Str', 0)"
    DIG = "call('Keccak256::digest', alt(mc('value', %s), mc('as_bytes', mc('value', %s))))" % (LIT, LIT)
    four = "alt(vec(%s), has(op('slice', %s, op('range', alt(0, none), 4))))" % (", ".join("op('idx', %s, %d)" % (DIG, i) for i in range(4)), DIG)
    e.only(r + ".selector", "call", "*u32_suffixed", ["call('*u32_suffixed', call('u32::from_be_bytes', %s))" % four], floor=1, traces="loop")
    e.only(r + ".pairs", "carry", "*", ["carry(mut('push', _, elem(_).ident))", "carry(mut('push', _, elem(_).attrs))",
                                       "carry(mut('push', _, has(call('*u32_suffixed', _))))"], floor=3, traces="loop")
    for x in ("elem(_).ident", "has(call('*u32_suffixed', _))"):
        e.must(r + ".each", "carry(mut('push', _, %s))" % x, count=1, traces="loop")
    e = ctx.entry(MAC, "keccak256", ty=None, split=True)
    V = "mc('value', op('macro', ...))"
    e.only(r + ".hash", "call", "*digest", ["call('Keccak256::digest', alt(%s, mc('as_bytes', %s)))" % (V, V)], floor=1)
    e.must(r + ".hash.used", "call('parse', has(call('Keccak256::digest', _)))")
    rendered(ctx, r + ".bytes")
    # what the macros write into the program
    written(ctx, r + ".written")
