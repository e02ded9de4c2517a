"""C10: report layout honours alignment and padding."""
import itertools
from .codec import *
from ..lib import AList, lst, eqv, add, sub
from . import c09
from .c09 import value, check, top, coll, rep, usage_obj, WAYS, D

RULE = ("The streamer analysed on sequences of fields, alignments and paddings whose sizes, counts, alignments and boundaries are "
        "abstract; reading the items back by the HID rules, every element starts after the least constant padding that makes its "
        "offset (the sum of size*count of its direction and report id) a multiple of its alignment, and nothing else is padded.  "
        "Because each step is judged from an abstract offset, one step from an arbitrary offset stands for every longer history.")
BOUNDS = "sizes, counts to 2^16, alignments and boundaries to 2^16, all abstract; up to 4 elements per sequence; report ids 0..255"
MIN_OBLIGATIONS = {"quick": 400}


def val(way, t, align="sym", count=True, usage=None):
    """A field of abstract size, count and alignment."""
    a = sym("al" + t, 0, 1 << 16) if align == "sym" else align
    kw = dict(flags=3) if usage is None else dict(flags=2, logicalMin=0, logicalMax=1)
    if count:
        kw["count"] = sym("c" + t, 0, 1 << 16)
    return value(way, usage, sym("s" + t, 0, 1 << 16), alignment=a, **kw)


def ali(way, t, b="sym"):
    return call(get(D + "Align"), facing(way), sym("b" + t, 0, 1 << 16) if b == "sym" else b)


def pad(way, t):
    return call(get(D + "Padding"), facing(way), sym("p" + t, 0, 1 << 16))


ELEMS = {
    "value": lambda w_, t: val(w_, t),
    "single": lambda w_, t: val(w_, t, count=False, usage=usage_obj(sym("u" + t, 1, U32))),
    "byte aligned": lambda w_, t: val(w_, t, align=8),
    "unaligned": lambda w_, t: val(w_, t, align=1),
    "align": lambda w_, t: ali(w_, t),
    "align 8": lambda w_, t: ali(w_, t, 8),
    "padding": lambda w_, t: pad(w_, t),
    "array": lambda w_, t: value(w_, None, sym("s" + t, 0, 1 << 16), alignment=sym("al" + t, 0, 1 << 16), count=sym("c" + t, 0, 1 << 16),
                                 namedArray=lst(usage_obj(sym("x" + t, 0, U32)), usage_obj(sym("y" + t, 0, U32)))),
    "wrapped": lambda w_, t: value(w_, usage_obj(sym("u" + t, 1, U32)), sym("s" + t, 0, 1 << 16), alignment=sym("al" + t, 0, 1 << 16),
                                   count=sym("c" + t, 0, 1 << 16), namedArray=lst(usage_obj(sym("x" + t, 0, U32)), usage_obj(sym("y" + t, 0, U32)))),
}


def t_pairs(first):
    def run(ctx):
        for k in ELEMS:
            for way in WAYS:
                check(ctx, "%s, %s in %s" % (first, k, way), lambda: top(ELEMS[first](way, "1"), ELEMS[k](way, "2")))
            check(ctx, "%s Input, %s Output" % (first, k), lambda: top(ELEMS[first]("Input", "1"), ELEMS[k]("Output", "2")))
            check(ctx, "%s Feature, %s Input" % (first, k), lambda: top(ELEMS[first]("Feature", "1"), ELEMS[k]("Input", "2")))
    return run


def t_three(first, tier):
    def run(ctx):
        ks = ["value", "byte aligned", "align 8", "padding"] if tier == "quick" else list(ELEMS)
        for k2, k3 in itertools.product(ks, ks):
            check(ctx, "%s, %s, %s" % (first, k2, k3), lambda: top(ELEMS[first]("Input", "1"), ELEMS[k2]("Input", "2"), ELEMS[k3]("Input", "3")))
            check(ctx, "%s, %s (other direction), %s" % (first, k2, k3),
                  lambda: top(ELEMS[first]("Input", "1"), ELEMS[k2]("Output", "2"), ELEMS[k3]("Input", "3")))
    return run


def t_default(ctx):
    V = get(D + "Value")
    for size in range(0, 40):
        for way in WAYS:
            def mk():
                a = val(way, "1", align=1)
                b = I.call(V, [facing(way), None, size], {"flags": 3})
                return top(a, b)
            check(ctx, "default alignment of %d bits in %s" % (size, way), mk2(mk, size))


def mk2(mk, size):
    """declare the documented default alignment"""
    def run():
        t = mk()
        b = I.iterate_list(t)[1]
        c09.DECL[id(b)] = (b, dict(flags=3, logicalMin=1, logicalMax=None, physicalMin=None, physicalMax=None, namedArray=None, unit=0,
                                   unitExponent=0, designator=0, string=0, count=1, alignment=min(8, size), usage=None, size=size, way=attr(b, "way")))
        return t
    return run


def t_reports(ctx):
    e = ELEMS["value"]
    b8 = ELEMS["byte aligned"]
    for r1, r2 in ((1, 2), (2, 1), (255, 254), (1, 255)):
        check(ctx, "offsets per report id %d %d" % (r1, r2), lambda: top(rep(r1, e("Input", "1")), rep(r2, e("Input", "2")), rep(r1, b8("Input", "3"))))
        check(ctx, "offsets per id and direction %d %d" % (r1, r2),
              lambda: top(rep(r1, e("Input", "1"), b8("Output", "2")), rep(r2, b8("Output", "3"), b8("Input", "4"))))
    check(ctx, "any report id", lambda: top(rep(sym("r", 0, 255), ELEMS["unaligned"]("Input", "1"), b8("Input", "2"))))
    check(ctx, "offset across collections", lambda: top(coll(e("Input", "1")), coll(coll(b8("Input", "2")), b8("Input", "3"))))
    check(ctx, "offset across repeated report", lambda: top(rep(1, coll(e("Input", "1"))), rep(1, b8("Input", "2"))))
    check(ctx, "offset of a wide value", lambda: top(value("Input", None, sym("s", 0, 1 << 32), flags=3, count=sym("c", 0, 1 << 32)), b8("Input", "2")))


def t_all_reports(ctx):
    """All report ids in one descriptor: the padding tells whose offset was used."""
    for ways in (("Input",), ("Output",), ("Feature",), ("Input", "Output"), ("Feature", "Input")):
        for order in (list(range(1, 256)), list(range(255, 0, -1)), [x * 3 % 256 for x in range(1, 256)]):
            f = lambda w_, n, al: value(w_, None, n, alignment=al, flags=3)
            check(ctx, "all report ids in %s" % "/".join(ways),
                  lambda: top(*([f(w_, 256 + 7, 1) for w_ in ways] + [rep(i, *[f(w_, i, 1) for w_ in ways]) for i in range(1, 256)]
                                + [rep(i, *[f(w_, 3, 512) for w_ in ways[::-1]]) for i in order])))


def t_large(ctx):
    """Long reports: the offset is counted on, whatever came before."""
    f = lambda n, al, way="Input", **k: value(way, None, n, alignment=al, flags=3, **k)
    for al in (2, 3, 8, 9, 32):
        check(ctx, "300 values aligned to %d" % al, lambda: top(*[f(1 + i % 17, al, WAYS[i % 2]) for i in range(300)]))
        check(ctx, "300 collections aligned to %d" % al, lambda: top(*[coll(f(1 + i % 17, al)) for i in range(300)]))
        check(ctx, "reports in turn aligned to %d" % al, lambda: top(*[rep(1 + i % 5, f(1 + i % 17, al), f(i % 7, al, "Feature")) for i in range(200)]))
        check(ctx, "wide values aligned to %d" % al, lambda: top(*[f(1 + 997 * i, al, count=1 + i % 9) for i in range(150)]))


def t_concrete(ctx):
    """Every small offset against every small alignment."""
    for off in range(0, 33):
        for al in range(0, 18):
            check(ctx, "offset %d alignment %d" % (off, al),
                  lambda: top(value("Input", None, off, flags=3), value("Input", None, 3, alignment=al, flags=3), value("Input", None, 5, alignment=8, flags=3)))
            check(ctx, "offset %d boundary %d" % (off, al),
                  lambda: top(value("Output", None, 1, flags=3, count=off), ali("Output", "", al), value("Output", None, 5, alignment=4, flags=3)))


def tasks(tier):
    for k in ELEMS:
        yield "pairs.%s" % k, t_pairs(k)
    for k in (("value", "unaligned", "padding", "align") if tier == "quick" else ELEMS):
        yield "three.%s" % k, t_three(k, tier)
    yield "default", t_default
    yield "reports", t_reports
    yield "all reports", t_all_reports
    yield "small", t_concrete
    yield "large", t_large
