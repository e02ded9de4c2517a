"""C09: compiling states every declared attribute."""
import itertools
from .codec import *
from ..lib import AList, lst, Infeasible, eqv, add, sub
from .. import hid

RULE = ("The streamer analysed on descriptor trees whose attributes are abstract; the items it appends, read by the HID rules, "
        "must give exactly the declared sequence of collections and fields with equal value numbers for every attribute, and "
        "alignment padding only where an offset is not a multiple of the alignment.")
BOUNDS = ("one to three fields per tree with every attribute abstract over its legal range, named arrays of 1 to 4 usages, "
          "nesting to 4; streamer state carried between fields is the report offset and id, both covered abstractly")
MIN_OBLIGATIONS = {"quick": 400}
D = "hrdc.descriptor:"
WH = "hrdc/descriptor/streamer.py"
S31 = (-(1 << 31), (1 << 31) - 1)
WAYS = ("Input", "Output", "Feature")


def compile_(tree):
    s = lib.sink()
    v = call(get("hrdc.descriptor.streamer:Streamer"), s)
    m(tree, "accept", v)
    return s


def opt(**k):
    return {a: b for a, b in k.items() if b is not None}


class Node:
    """Declared element and what it should compile to."""


def usage_obj(v):
    return call(get("hrdc.usage:Usage"), "mod.Name", v, register=False)


DECL = {}


def value(way, usage, size, alignment=1, **kw):
    """A value, and what was declared with it."""
    V = get(D + "Value")
    o = I.call(V, [facing(way), usage, size], dict(kw, alignment=alignment))
    d = dict(flags=2, logicalMin=1, logicalMax=None, physicalMin=None, physicalMax=None, namedArray=None, unit=0, unitExponent=0,
             designator=0, string=0, count=1)
    d.update(kw, alignment=alignment, usage=usage, size=size, way=facing(way))
    if d["namedArray"] is not None:
        d["logicalMax"] = sub(add(d["logicalMin"], len(I.iterate_list(d["namedArray"]))), 1)
        hasu = usage is not None and not (isinstance(usage, (int, AInt)) and eqv(usage, 0))
        d["flags"] = 2 if hasu else 0
    DECL[id(o)] = (o, d)
    return o


def given(o, n):
    d = DECL.get(id(o))
    if d is not None and d[0] is o:
        return d[1][n]
    return attr(o, n)


def physical_of(g):
    """Declared physical range: the logical one unless given."""
    a, b = g("physicalMin"), g("physicalMax")
    return (0 if a is None else a), (0 if b is None else b)


def declared(elem, rid, out, offs):
    """Events the declaration stands for, appended to out.  Partitions."""
    cls = elem.cls.name
    kind = None
    for n in ("Align", "Padding", "Value", "Report", "Collection", "TopLevel"):
        if get(D + n) in elem.cls.mro:
            kind = n
            break
    if kind in ("TopLevel", "Report", "Collection"):
        if kind == "Report":
            i = int_of(attr(elem, "id"))
            if not eqv(i, 0):
                rid = [i]
        if kind == "Collection":
            u = attr(elem, "usage")
            out.append(("open", int_of(attr(elem, "kind")), [] if u is None else [int_of(u)], [], []))
        for x in I.iterate_list(elem):
            rid = declared(x, rid, out, offs)
        if kind == "Collection":
            out.append(("close",))
        return rid
    way = int_of(given(elem, "way") if kind == "Value" else attr(elem, "way"))
    tag = {8: "Input", 9: "Output", 11: "Feature"}[way]
    r = rid[0] if rid else 0
    slot = offs.setdefault((tag, r if not isinstance(r, AInt) else w.store.poly(r)), [0])
    pad = 0
    if kind == "Padding":
        pad = int_of(attr(elem, "size"))
        if eqv(pad, 0):
            pad = 0
    else:
        al = int_of(attr(elem, "boundary") if kind == "Align" else given(elem, "alignment"))
        if not lib.le(al, 1):
            part = I.arith("%", slot[0], al)
            if not eqv(part, 0):
                pad = sub(al, part)
    if not (isinstance(pad, int) and pad == 0):
        out.append(("pad", tag, r, pad))
        slot[0] = add(slot[0], pad)
    if kind != "Value":
        return rid
    at = lambda n: given(elem, n)
    fl = int_of(at("flags"))
    g = lambda n: int_of(at(n))
    f = {"tag": tag, "flags": fl, "ReportSize": g("size"), "ReportCount": g("count"), "ReportID": r, "u": [], "d": [], "s": []}
    const = eqv(I.arith("&", fl, 1), 1)
    wrap = False
    if not const:
        f.update(LogicalMinimum=g("logicalMin"), LogicalMaximum=g("logicalMax"), Unit=g("unit"), UnitExponent=g("unitExponent"))
        na = at("namedArray")
        u = at("usage")
        hasu = u is not None and not (isinstance(u, (int, AInt)) and eqv(u, 0))
        if na is not None:
            f.update(PhysicalMinimum=0, PhysicalMaximum=0)
            f["u"] = [int_of(x) for x in I.iterate_list(na)]
            wrap = hasu
        else:
            pm, px = physical_of(at)
            f.update(PhysicalMinimum=int_of(pm), PhysicalMaximum=int_of(px))
            if hasu:
                f["u"] = [int_of(u)]
        for k, n in (("d", "designator"), ("s", "string")):
            v = g(n)
            if not eqv(v, 0):
                f[k] = [v]
    if wrap:
        out.append(("open", 2, [int_of(u)], [], []))
    out.append(("field", f))
    slot[0] = add(slot[0], mul_(f["ReportSize"], f["ReportCount"]))
    if wrap:
        out.append(("close",))
    return rid


def mul_(a, b):
    return lib.mul(a, b)


def compare(ctx, want, got, what):
    """Events against events, nothing added and nothing lost."""
    def sig(e):
        return "padding " + e[1] if e[0] == "pad" else "field " + e[1]["tag"] if e[0] == "field" else e[0]

    def is_pad(e):
        return e[0] == "field"
    gs = [("field " + e[1]["tag"]) if e[0] == "field" else e[0] for e in got]
    ws = [("field " + (e[1] if e[0] == "pad" else e[1]["tag"])) if e[0] in ("pad", "field") else e[0] for e in want]
    if not ctx.req(gs == ws, "exactly the declared fields and collections, in order",
                   lambda: "%s: compiled [%s], declared [%s]" % (what, ", ".join(gs), ", ".join(map(sig, want))), WH, what):
        return
    for e, g in zip(want, got):
        if e[0] == "open":
            ctx.req(same(e[1], g[1]), "collection kind", lambda: "%s: kind %s, declared %s" % (what, show(g[1]), show(e[1])), WH, what)
            ok = len(e[2]) == len(g[2]) and all(same(a, b) for a, b in zip(e[2], g[2]))
            ctx.req(ok, "collection usage", lambda: "%s: usages %s, declared %s" % (what, show(g[2]), show(e[2])), WH, what)
            ctx.req(not g[3] and not g[4], "no undeclared designator or string", lambda: "%s: %s %s" % (what, show(g[3]), show(g[4])), WH, what)
        elif e[0] == "pad":
            f = g[1]
            c = I.arith("&", f["flags"], 1)
            ctx.req(same(c, 1), "padding is constant", lambda: "%s: padding flags %s" % (what, show(f["flags"])), WH, what)
            ctx.req(same(lib.mul(f["ReportSize"], f["ReportCount"]), e[3]), "padding size",
                    lambda: "%s: padding of %s x %s bits, expected %s" % (what, show(f["ReportSize"]), show(f["ReportCount"]), show(e[3])), WH, what)
            ctx.req(same(f["ReportID"], e[2]), "padding in the same report", lambda: "%s: report id %s" % (what, show(f["ReportID"])), WH, what)
            ctx.req(not f["u"] and not f["d"] and not f["s"], "padding has no usage", what, WH, what)
        elif e[0] == "field":
            a, b = e[1], g[1]
            for n in ("flags", "ReportSize", "ReportCount", "ReportID", "LogicalMinimum", "LogicalMaximum", "Unit", "UnitExponent"):
                if n in a:
                    ctx.req(same(a[n], b[n]), "field %s" % n, lambda: "%s: %s %s, declared %s" % (what, n, show(b[n]), show(a[n])), WH, what)
            if "PhysicalMinimum" in a:
                ctx.req(same(g[2][0], e[2][0]) and same(g[2][1], e[2][1]), "field physical range",
                        lambda: "%s: physical %s, declared %s" % (what, show(list(g[2])), show(list(e[2]))), WH, what)
            for k, n in (("u", "usage"), ("d", "designator"), ("s", "string")):
                ok = len(a[k]) == len(b[k]) and all(same(x, y) for x, y in zip(a[k], b[k]))
                ctx.req(ok, "field %s" % n, lambda: "%s: %s %s, declared %s" % (what, n, show(b[k]), show(a[k])), WH, what)


def phys(ev):
    out = []
    for e in ev:
        if e[0] == "field" and "PhysicalMinimum" in e[1]:
            e = (e[0], e[1], hid.physical(e[1]))
        out.append(e)
    return out


def check(ctx, what, mk):
    turn = ctx.turn()

    def fn():
        TURN[0] = turn
        DECL.clear()
        t = mk()
        s = compile_(t)
        ev = hid.read([hid.named(i) for i in attr(s, "items").v])
        want = []
        declared(t, None, want, {})
        return want, phys(ev), s, phys(want)

    def judge(k, r):
        if k == "exc":
            ctx.bad("every declarable tree compiles", "%s: %s" % (what, lib.exc_str(r)), r.where, what)
            return
        _, ev, s, want = r
        ctx.req(attr(s, "closed") == 0, "the compiler leaves closing to its caller", what, WH, what)
        compare(ctx, want, ev, what)

    def guarded():
        try:
            return fn()
        except hid.Odd as e:
            return e

    def judge2(k, r):
        if k == "ok" and isinstance(r, hid.Odd):
            ctx.bad("the compiled stream is well formed", "%s: %s" % (what, r), WH, what)
            return
        judge(k, r)
    ctx.explore(what, guarded, judge2)


def top(*x):
    return I.call(get(D + "TopLevel"), list(x), {})


def coll(*x, kind=None, usage="obj"):
    k = attr(get(D + "Collection"), "Application") if kind is None else kind
    u = usage_obj(sym("cu", 0, U32)) if usage == "obj" else sym("cu", 0, U32) if usage == "sym" else usage
    return I.call(get(D + "Collection"), [k, u] + list(x), {})


def rep(i, *x):
    return I.call(get(D + "Report"), [i] + list(x), {})


USAGES = {"none": lambda: None, "zero": lambda: 0, "int": lambda: sym("usage", 1, U32), "Usage": lambda: usage_obj(sym("usage", 0, U32)),
          "any": lambda: sym("usage", 0, U32)}


BASE = dict(logicalMin=(-1000, -1), logicalMax=(1, 1000), physicalMin=(-5000, -2000), physicalMax=(2000, 5000),
            unit=(1 << 25, U32), unitExponent=(-8, 7), designator=(1, 255), string=(1, 255), count=(1, 1 << 16), size=(1, 1 << 16))
FULL = dict(logicalMin=S31, logicalMax=S31, physicalMin=S31, physicalMax=S31, unit=(0, U32), unitExponent=S31,
            designator=(0, U32), string=(0, U32), count=(0, 1 << 32), size=(0, 1 << 32))
GROUPS = {"logical": ("logicalMin", "logicalMax"), "physical": ("physicalMin", "physicalMax"), "ranges": ("logicalMin", "logicalMax", "physicalMin", "physicalMax"),
          "unit": ("unit",), "exponent": ("unitExponent",), "designator": ("designator",), "string": ("string",),
          "count": ("count",), "size": ("size",), "none": ()}


def full(way, usage="Usage", flags=2, group="none", tag="", omit=(), **kw):
    """A value with every attribute abstract: those of the group over their
    whole legal range, the others over ranges that keep them apart."""
    a = {}
    for n in BASE:
        lo, hi = (FULL if n in GROUPS[group] else BASE)[n]
        a[n] = sym(n + tag, lo, hi)
    size = a.pop("size")
    for n in omit:
        a.pop(n)
    a["flags"] = flags
    a.update(kw)
    u = USAGES[usage]() if isinstance(usage, str) else usage
    return value(way, u, size, **a)


PH = ("physicalMin", "physicalMax")


def t_attrs(way, usage):
    def run(ctx):
        for flags in (0, 2, 6, 0x102, 1, 3):
            for g in GROUPS:
                check(ctx, "%s value, usage %s, flags %d, any %s" % (way, usage, flags, g), lambda: top(full(way, usage, flags, g)))
            for om in (PH, PH[:1], PH[1:], ("unit",), ("unitExponent",), ("designator",), ("string",), ("count",)):
                check(ctx, "%s value, usage %s, flags %d, without %s" % (way, usage, flags, om), lambda: top(full(way, usage, flags, "logical", omit=om)))
    return run


def t_flags(ctx):
    nc = get("hrdc.util:NamedConstant")
    f = sym("flags", 0, 511)
    check(ctx, "any flags", lambda: top(value("Input", sym("u", 1, U32), 8, flags=f, logicalMin=0, logicalMax=sym("lx", 0, 255))))
    for n in spec.FLAG_NAMES + ["Data", "Array"]:
        check(ctx, "flags %s" % n, lambda: top(value("Output", sym("u", 1, U32), 8, flags=attr(get(D + "Value"), n), logicalMin=0, logicalMax=1)))


def t_unit(ctx):
    check(ctx, "any unit", lambda: top(value("Input", sym("u", 1, U32), 8, unit=sym("unit", 0, U32), logicalMin=0, logicalMax=1)))
    for n in spec.UNITS:
        if lib.has(D + "Unit." + n):
            check(ctx, "unit %s" % n, lambda: top(value("Input", sym("u", 1, U32), 8, unit=get(D + "Unit." + n), logicalMin=0, logicalMax=1)))


def t_array(ctx):
    R = get("hrdc.usage:UsageRange")
    for usage in ("none", "zero", "int", "Usage"):
        for n in (1, 2, 3, 4):
            for way in WAYS:
                def mk():
                    arr = lst(*[usage_obj(sym("a%d" % i, 0, U32)) if n > 2 else sym("a%d" % i, 0, U32) for i in range(n)])
                    return top(coll(full(way, usage, 2, "logical", omit=PH, namedArray=arr)))
                check(ctx, "%s named array of %d, usage %s" % (way, n, usage), mk)

        def mk():
            a = sym("a", 0, U32 - 3)
            return top(coll(full("Input", usage, 2, "exponent", omit=PH, namedArray=call(R, usage_obj(a), usage_obj(add(a, 3))))))
        check(ctx, "named range, usage %s" % usage, mk)

        def mk():
            arr = lst(sym("a0", 0, U32), sym("a1", 0, U32))
            return top(coll(full("Input", usage, 2, namedArray=arr), full("Input", "Usage", 2, "ranges", tag="2")))
        check(ctx, "named array then value, usage %s" % usage, mk)


def t_seq(first):
    def run(ctx):
        kinds = {"plain": lambda t: full("Input", "Usage", 2, "ranges" if t == "2" else "none", tag=t),
                 "other": lambda t: full("Output", "any", 6, "ranges" if t == "2" else "none", tag=t),
                 "const": lambda t: value("Input", None, sym("cs" + t, 0, 1 << 16), flags=3, count=sym("cc" + t, 0, 255)),
                 "array": lambda t: full("Feature", "none", 2, omit=PH, tag=t, namedArray=lst(usage_obj(sym("x" + t, 0, U32)), sym("y" + t, 0x10000, U32))),
                 "padding": lambda t: call(get(D + "Padding"), facing("Input"), sym("pad" + t, 0, 1 << 16)),
                 "wrapped": lambda t: full("Input", "int", 2, omit=PH, tag=t, namedArray=lst(usage_obj(sym("x" + t, 0, U32)), sym("y" + t, 0x10000, U32)))}
        for k in kinds:
            check(ctx, "%s then %s" % (first, k), lambda: top(kinds[first]("1"), kinds[k]("2")))
    return run


ATTR = {"unit": (1 << 25, U32), "unitExponent": (1, 7), "designator": (1, 255), "string": (1, 255), "count": (2, 1 << 16),
        "physicalMin": (-5000, -2000), "physicalMax": (2000, 5000)}


def t_pairs(first):
    """Two values, each with at most two of its optional attributes given: none
    of them is carried over."""
    def run(ctx):
        def some(t, names):
            a = {n: sym(n + t, *ATTR[n]) for n in names if n}
            return value("Input", usage_obj(sym("u" + t, 1, U32)), sym("s" + t, 1, 64), flags=2, logicalMin=sym("ln" + t, -9, -1), logicalMax=sym("lx" + t, 1, 9), **a)
        for f2 in [None] + [n for n in ATTR if n > (first or "")]:
            for s1 in [None] + list(ATTR):
                check(ctx, "value with %s %s then %s" % (first, f2, s1), lambda: top(some("1", (first, f2)), some("2", (s1,)), some("3", ())))
                check(ctx, "value with %s after %s %s" % (s1, first, f2), lambda: top(some("1", (s1,)), some("2", (first, f2)), some("3", (s1,))))
    return run


def t_large(ctx):
    """Far more of everything than usual."""
    R = get("hrdc.usage:UsageRange")
    v = lambda i, way="Input", **k: value(way, usage_obj(0x90001 + i), 1 + i % 32, flags=2, logicalMin=-i, logicalMax=i + 1, **k)
    n, d = 300, 40

    def deep():
        x = v(0)
        for i in range(d):
            x = coll(x, v(i + 1), usage=0x10030 + i) if i % 4 else rep(i + 1, x, v(i + 1))
        return top(x)
    check(ctx, "%d levels" % d, deep)
    check(ctx, "%d values" % n, lambda: top(coll(*[v(i, WAYS[i % 3], string=i, designator=n - i, unit=i % 5, unitExponent=i % 7) for i in range(n)])))
    check(ctx, "%d values in a row" % n, lambda: top(coll(*[value("Input", usage_obj(0x90001 + i), 1, flags=2, logicalMin=0, logicalMax=1) for i in range(n)])))
    for u in (None, 0x10030):
        check(ctx, "named array of %d" % n, lambda: top(coll(value("Input", u, 16, namedArray=lst(*[usage_obj(0x90001 + 2 * i) for i in range(n)])), v(1))))
        check(ctx, "named range of %d" % n, lambda: top(coll(value("Input", u, 16, namedArray=call(R, usage_obj(0x90001), usage_obj(0x90000 + n))), v(1))))
    check(ctx, "255 reports", lambda: top(coll(*[rep(i, v(i), v(i + 1, "Output")) for i in range(1, 256)])))
    check(ctx, "100 collections", lambda: top(*[coll(v(i), usage=0x10030 + i) for i in range(100)]))


def t_nest(ctx):
    C = get(D + "Collection")
    leaf = lambda t="": value("Input", usage_obj(sym("u" + t, 1, U32)), sym("s" + t, 0, 64), logicalMin=0, logicalMax=sym("x" + t, 1, 255))
    for u in (None, 0, "sym"):
        check(ctx, "collection with usage %s" % u, lambda: top(coll(leaf(), usage=u)))
        check(ctx, "empty collection with usage %s" % u, lambda: top(coll(usage=u)))
    check(ctx, "collection with usage object", lambda: top(coll(leaf(), usage=usage_obj(sym("cu", 0, U32)))))
    check(ctx, "any collection kind", lambda: top(coll(leaf(), kind=sym("kind", 0, U32))))
    for n in spec.COLLECTIONS:
        check(ctx, "%s collection" % n, lambda: top(coll(leaf(), kind=attr(C, n))))
    check(ctx, "nesting", lambda: top(coll(leaf("1"), coll(coll(leaf("2")), leaf("3"), coll()), leaf("4")), leaf("5")))
    check(ctx, "report", lambda: top(rep(sym("r", 1, 255), leaf())))
    check(ctx, "report without id", lambda: top(rep(0, leaf())))
    for r1, r2 in ((1, 2), (255, 1), (7, 254), (3, 3)):
        check(ctx, "reports %d %d" % (r1, r2), lambda: top(coll(rep(r1, leaf("1"), leaf("2")), rep(r2, leaf("3")))))
        check(ctx, "collections in reports %d %d" % (r1, r2), lambda: top(rep(r1, coll(leaf("1")), coll(leaf("2"))), rep(r2, leaf("3"))))
        check(ctx, "reports in collections %d %d" % (r1, r2), lambda: top(coll(rep(r1, leaf("1"))), coll(rep(r2, leaf("2")), leaf("3"))))
        check(ctx, "report ids back and forth %d %d" % (r1, r2), lambda: top(rep(r1, leaf("1")), rep(r2, leaf("2")), rep(r1, leaf("3"))))
    check(ctx, "empty", lambda: top())
    check(ctx, "collection as root", lambda: coll(leaf()))
    check(ctx, "report as root", lambda: rep(5, leaf()))


def tasks(tier):
    for way in WAYS:
        for u in ("none", "int", "Usage", "any"):
            yield "attributes.%s.%s" % (way, u), t_attrs(way, u)
    yield "flags", t_flags
    yield "unit", t_unit
    yield "namedarray", t_array
    for k in ("plain", "other", "const", "array", "padding", "wrapped"):
        yield "sequence.%s" % k, t_seq(k)
    for n in [None] + list(ATTR):
        yield "pairs.%s" % n, t_pairs(n)
    yield "nesting", t_nest
    yield "large", t_large
