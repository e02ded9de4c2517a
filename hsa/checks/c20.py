"""C20: comparison of compiled output with an expected listing is exact."""
import itertools
from .codec import *
from ..lib import mkbytes, mkstr, exc_str, lst
from .c04 import val
from .c05 import hexb, mkitem, bytes_of, comments, usage
from . import c05

RULE = ("ExpectedStream and descriptor_expected analysed with a test case whose assertions raise: listing templates with abstract bytes "
        "against items with abstract values; on every partition the comparison fails exactly when the byte sequences differ.")
BOUNDS = "sequences of up to 3 items; comment texts complete up to 3 characters (thorough: 4) over the alphabet of C05, longer ones listed"
MIN_OBLIGATIONS = {"quick": 2000}
CMP = "hrdc.stream.comparer:ExpectedStream"
WH = "hrdc/stream/comparer.py ExpectedStream"



def case():
    return call(get("hsa_harness:Case"))


def equal(a, b):
    """Partitions on whether two byte sequences are equal."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if not I.truth(I.compare("__eq__", x, y)):
            return False
    return True


def feed(text, items):
    o = call(get(CMP), case(), text)
    for i in items:
        m(o, "append", i)
    m(o, "close")


def verdict(f):
    try:
        f()
    except lib.PyExc as e:
        if lib.exc_name(e) == "AssertionError":
            return True, e
        raise
    return False, None


def expect(ctx, what, mk, limit=4000, run=feed):
    """mk() -> (text, bytes it lists, items)"""
    def fn():
        text, listed, its = mk()
        got = bytes_of(its) if run is feed else run(None, its)
        eq = equal(listed, got)
        failed, e = verdict(lambda: run(text, its))
        return text, its, eq, failed, e

    def judge(k, r):
        if k == "exc":
            ctx.bad("the comparison gives a verdict", "%s: %s" % (what, exc_str(r)), r.where, what)
            return
        text, its, eq, failed, e = r
        inp = lambda: "%s: listing %r against %s" % (what, text, show(its))
        if eq:
            ctx.req(not failed, "equal bytes pass", lambda: "%s fails: %s" % (inp(), exc_str(e)), e.where if e else WH, inp)
        else:
            ctx.req(failed, "differing bytes fail", lambda: "%s passes" % inp(), WH, inp)
    ctx.explore(what, fn, judge, limit)


def listing(b, sep=", ", lead="", trail="", up=False):
    ps = [lead]
    for j, y in enumerate(b):
        ps += [sep] * (j > 0) + ["0x", hexb(y, up)]
    return mkstr(ps + [trail])


K = [("ReportSize", 128, 255, 2), ("UsagePage", 0x8000, 0xfeff, 3), ("Unit", 1 << 31, U32, 5), ("LogicalMinimum", -32768, -16385, 3), ("EndCollection", 0, 0, 1), ("Push", 0, 0, 1)]


def t_items(l):
    def run(ctx):
        for seq in itertools.product(range(len(K)), repeat=l):
            names = ", ".join(K[i][0] for i in seq)

            def its():
                return [mkitem(K[i][0], val("v%d" % j, K[i][1], K[i][2])) for j, i in enumerate(seq)]
            n = sum(K[i][3] for i in seq)

            def exact():
                a = its()
                b = bytes_of(a)
                return listing(b), b, a
            expect(ctx, "same bytes as [%s]" % names, exact)
            for k in range(n + 1):
                if l == 3 and (k + sum(seq)) % 3:
                    continue

                def diff():
                    a = its()
                    b = bytes_of(a)
                    if k < n:
                        b[k] = sym("x", 0, 255)
                    else:
                        b.append(sym("x", 0, 255))
                    return listing(b, trail=","), b, a

                def short():
                    a = its()
                    b = bytes_of(a)[:k]
                    return listing(b), b, a

                def gone():
                    a = its()
                    b = bytes_of(a)
                    b = b[:k] + b[k + 1:]
                    return listing(b), b, a
                expect(ctx, "byte %d any, [%s]" % (k, names), diff)
                if k < n:
                    expect(ctx, "cut after %d, [%s]" % (k, names), short)
                    expect(ctx, "without byte %d, [%s]" % (k, names), gone)
    return run


def no_byte(ctx, text, vals):
    """A listing with a word that is no byte passes for no items."""
    def fn():
        its = [mkitem(n, v) for n, v in zip(("ReportSize", "ReportCount"), vals)]
        try:
            feed(text, its)
        except lib.PyExc:
            return False
        return True
    ctx.explore("no byte", fn, lambda k, r: ctx.req(k != "ok" or not r, "a listing of something else than bytes fails",
                lambda: "listing %r against values %s passes" % (text, list(vals)), WH, text), 400)


def t_layout(ctx):
    for sep in (", ", ",", ",\n", ",\n    ", " , ", ",\t", ",\r\n"):
        for up in (False, True):
            for lead, trail in (("", ""), ("\n  ", ",\n"), ("", " "), ("/* x */", "// y"), ("// c\n", ", // d\n"), ("", ", /* e */\n/* f\n*/")):
                def mk(d):
                    v, x = sym("v", 0, 255), sym("x", 1 << 25, U32)
                    its = [mkitem("ReportSize", v), mkitem("Unit", x)]
                    b = bytes_of(its)
                    if d:
                        b[1] = sym("y", 0, 255)
                    return listing(b, sep, lead, trail, up), b, its
                for d in (0, 1):
                    expect(ctx, "bytes%s separated by %r, between %r and %r" % (" upper case" if up else "", sep, lead, trail), lambda: mk(d))
    for v in range(256):
        for k in (v, v ^ 1, v ^ 0x80):
            expect(ctx, "byte %d" % v, lambda: ("0x75, 0x%02x," % v, [0x75, v], [mkitem("ReportSize", k)]))
    # words that list no byte: nothing compiled equals them
    for v in (0x100, 0x108, 0x1008, 0x10008, 0x1000008, (1 << 32) + 8, (1 << 64) + 8):
        for t in ("0x75, %s," % hex(v), "%s" % hex(v), "0x75, %s, 0x95, 0x02," % hex(v)):
            for its in ((8,), (0,), (8, 2), (255,), ()):
                no_byte(ctx, t, its)
    for t in ("", " \n\n", "// a\n/* b */\n"):
        expect(ctx, "empty listing %r" % t, lambda: (t, [], []))
        expect(ctx, "empty listing %r" % t, lambda: (t, [], [mkitem("ReportSize", 1)]))


def t_long(ctx):
    from .c05 import long_listing, LONGN
    for at in (None, 0, 1, LONGN // 2, LONGN - 2, LONGN - 1):
        for cut in (False, True):
            def mk():
                text, want = long_listing()
                its = [mkitem(n, v) for n, v in want]
                b = [x for i in its for x in bytes_of([i])]
                if at is not None:
                    n, v = want[at]
                    its[at:at + 1] = [] if cut else [mkitem("Pop", 0) if n == "Push" else mkitem(n, v ^ 1)]
                return text, b, its
            if at is not None or not cut:
                expect(ctx, "%d items against their listing, %s" % (LONGN, "unchanged" if at is None else "item %d %s" % (at, "missing" if cut else "changed")), mk)


def t_comments(part, tier):
    def run(ctx):
        n = 0
        for t in comments(tier):
            good = lambda: [mkitem("ReportSize", 8), mkitem("ReportCount", 2)]
            wrong = lambda: [mkitem("ReportSize", 8), mkitem("ReportCount", 3)]

            def both(what, text, one=False):
                b = [0x75, 8] if one else [0x75, 8, 0x95, 2]
                for its in (good, wrong):
                    expect(ctx, what, lambda: (text, b, its()[:1] if one else its()))
                expect(ctx, what, lambda: (text, b, []))
            if part == "line" and "\n" not in t:
                n += 1
                both("line comment %r" % t, "0x75, 0x08, //" + t + "\n0x95, 0x02,")
                both("last line comment %r" % t, "// a\n0x75, 0x08, //" + t, True)
            if part == "block" and (t + "*/").index("*/") == len(t):
                n += 1
                both("block comment %r" % t, "0x75, 0x08, /*" + t + "*/0x95, 0x02,")
                both("two block comments %r" % t, "/*" + t + "*/0x75, 0x08, /*" + t + "*/0x95, 0x02,")
        ctx.notes["comment texts"] = n
    return run


# -- the whole comparison of a descriptor ---------------------------------------------------

D = "hrdc.descriptor:"


def compiled(tree):
    s = lib.sink()
    o = m(get("hrdc.stream.optimizer:Optimizer"), "new", s)
    m(tree, "accept", call(get("hrdc.descriptor.streamer:Streamer"), o))
    m(o, "close")
    return bytes_of(attr(s, "items").v)


def against(text, tree):
    if text is None:
        return compiled(tree)
    call(get("hrdc.descriptor.test:descriptor_expected"), case(), tree, text)


def trees():
    Value, Coll = get(D + "Value"), get(D + "Collection")
    Top = get(D + "TopLevel")

    def field(n, hi=127, **k):
        return call(Value, get(D + "Value.Input"), usage("m.F" + n, 0x10000 + ord(n)), 8, logicalMin=-5, logicalMax=hi, **k)

    def coll(*ch):
        return call(Coll, get("hrdc.descriptor:Collection.Application"), usage("m.C", 0x10002), *ch)
    yield "one field", lambda: call(Top, coll(field("a", sym("hi", 0, 127))))
    yield "two fields", lambda: call(Top, coll(field("a"), field("b", sym("hi", 0, 127))))
    yield "empty", lambda: call(Top)
    yield "report", lambda: call(Top, coll(call(get(D + "Report"), sym("id", 1, 3), field("a"))))


def t_descriptor(ctx):
    for name, mk in trees():
        def size():
            return len(compiled(mk()))
        ns = set()
        ctx.explore(name, size, lambda k, r: ns.add(r) if k == "ok" else ctx.bad("compiles", exc_str(r), r.where, name), 4000)
        for n in ns:
            for mode in ("same", "more", "less") + tuple(range(n)):
                def one():
                    t = mk()
                    b = compiled(t)
                    if len(b) != n:
                        raise lib.Infeasible()
                    if mode == "more":
                        b = b + [0xc0]
                    elif mode == "less":
                        b = b[:-1]
                    elif mode != "same":
                        b = list(b)
                        b[mode] = sym("x", 0, 255)
                    return listing(b, ",\n"), b, t
                if mode == "less" and not n:
                    continue
                expect(ctx, "%s, %s of %d bytes" % (name, mode, n), one, run=against)


def tasks(tier):
    for l in (0, 1, 2, 3):
        yield "items.%d" % l, t_items(l)
    yield "layout", t_layout
    yield "long", t_long
    for p in ("line", "block"):
        yield "comments." + p, t_comments(p, tier)
    yield "descriptor", t_descriptor
