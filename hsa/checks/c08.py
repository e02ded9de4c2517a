"""C08: optimized output is free of redundancy."""
import itertools
from .codec import *
from ..lib import lst, eqv, add, sub, Infeasible
from .. import hid
from .c09 import value, usage_obj, DECL, D, S31, phys
from .c07 import text

RULE = ("Descriptor trees with abstract attributes compiled through the streamer and the optimizer pipeline.  On every partition of the "
        "output: a global item never has the value its tag already has; a data field whose effective physical range equals the logical "
        "one has no physical range in force; neighbouring fields the reference rule calls mergeable lie in one main item; a main item "
        "with three or more consecutive usages has exactly one usage minimum and one usage maximum.")
BOUNDS = ("up to 4 fields per tree with abstract attributes; all sequences of 3 (thorough: 4) fields over 13 kinds of fields; all trees of up to 4 (5) nodes; "
          "trees of 300 fields; the cases take turns over the three directions")
MIN_OBLIGATIONS = {"quick": 5000}
WH = "hrdc/stream/optimizer/"


def compile_opt(tree):
    plain = lib.sink()
    m(tree, "accept", call(get("hrdc.descriptor.streamer:Streamer"), plain))
    s = lib.sink()
    o = call(get("hrdc.stream.optimizer:Optimizer.new"), s)
    m(tree, "accept", call(get("hrdc.descriptor.streamer:Streamer"), o))
    m(o, "close")
    return [hid.named(i) for i in attr(plain, "items").v], [hid.named(i) for i in attr(s, "items").v]


def restated(pairs):
    """Global items that give their tag the value it already has."""
    cur = {}
    out = []
    for n, v in pairs:
        if spec.ITEMS[n][0] != 1 or n in ("Push", "Pop"):
            if n in ("Push", "Pop"):
                cur.clear()
            continue
        if n in cur and eqv(cur[n], v):
            out.append("%s(%s)" % (n, show(v)))
        cur[n] = v
    return out


SAME = ["tag", "flags", "LogicalMinimum", "LogicalMaximum", "Unit", "UnitExponent", "ReportSize", "ReportID"]


def mergeable(a, b):
    """Two fields that differ only in their usages."""
    if a["tag"] != b["tag"]:
        return False
    for f in (a, b):
        if not eqv(f["ReportCount"], 1) or len(f["u"]) > 1:
            return False
        # an array is not a list of fields
        if eqv(I.arith("&", f["flags"], 3), 0):
            return False
    if len(a["u"]) != len(b["u"]):
        return False
    if not all(eqv(a[k], b[k]) for k in SAME[1:]):
        return False
    pa, pb = hid.physical(a), hid.physical(b)
    if not (eqv(pa[0], pb[0]) and eqv(pa[1], pb[1])):
        return False
    for k in ("d", "s"):
        if len(a[k]) != len(b[k]) or not all(eqv(x, y) for x, y in zip(a[k], b[k])):
            return False
    return True


def split_merges(plain, out):
    """Pairs of mergeable neighbours that do not share a main item."""
    ev = hid.read(plain)
    got = hid.read(out)
    slots = []
    for no, e in enumerate(got):
        if e[0] == "field":
            n = e[1]["ReportCount"]
            n = w.concretize(n) if isinstance(n, AInt) else n
            slots += [no] * n
    bad = []
    pos = 0
    prev = None
    for e in ev:
        if e[0] != "field":
            prev = None
            continue
        n = e[1]["ReportCount"]
        n = w.concretize(n) if isinstance(n, AInt) else n
        if prev is not None and mergeable(prev[1], e[1]):
            if pos < len(slots) and prev[0] < len(slots) and slots[prev[0]] != slots[pos]:
                bad.append("%s fields %d and %d" % (e[1]["tag"], prev[0], pos))
        prev = (pos, e[1])
        pos += n
    return bad


def physical_written(out):
    bad = []
    for e in hid.read(out):
        if e[0] != "field" or eqv(I.arith("&", e[1]["flags"], 1), 1):
            continue
        f = e[1]
        a, b = f["PhysicalMinimum"], f["PhysicalMaximum"]
        if eqv(a, 0) and eqv(b, 0):
            continue
        if eqv(a, f["LogicalMinimum"]) and eqv(b, f["LogicalMaximum"]):
            bad.append("physical range %s..%s" % (show(a), show(b)))
    return bad


def unranged(out):
    """Main items with three or more consecutive usages not given as a range."""
    bad = []
    G = {}
    locs = []
    for n, v in out:
        k = spec.ITEMS[n][0]
        if n == "UsagePage":
            G[n] = v
        elif k == 2 and n.startswith("Usage"):
            locs.append((n, v))
        elif k == 0:
            if len(locs) >= 3:
                us = []
                mn = None
                for ln, lv in locs:
                    lv = hid.ext(lv, G.get("UsagePage", 0))
                    if ln == "Usage":
                        us.append(lv)
                    elif ln == "UsageMinimum":
                        mn = lv
                    elif mn is not None:
                        us += hid.span(mn, lv)
                run = all(eqv(add(a, 1), b) for a, b in zip(us, us[1:]))
                if run and eqv(I.arith(">>", us[0], 16), I.arith(">>", us[-1], 16)):
                    bad.append("%s: usages %s" % (n, show(us)))
            locs = []
    return bad


def check(ctx, what, mk, limit=20000):
    turn = ctx.turn()

    def fn():
        TURN[0] = turn
        DECL.clear()
        plain, out = compile_opt(mk())
        try:
            r = restated(out), physical_written(out), split_merges(plain, out), unranged(out)
        except hid.Odd:
            raise Infeasible
        return plain, out, r

    def judge(k, r):
        if k == "exc":
            ctx.bad("compiling with optimization succeeds", "%s: %s" % (what, lib.exc_str(r)), r.where, what)
            return
        plain, out, (a, b, c, d) = r
        inp = lambda: "%s -> %s" % (text(plain), text(out))
        ctx.req(not a, "no global item restates the value in force", lambda: "%s: %s" % (what, ", ".join(a)), WH + "global_merge.py", inp)
        ctx.req(not b, "a physical range equal to the logical one is not written", lambda: "%s: %s" % (what, ", ".join(b)), WH + "physical_merge.py", inp)
        ctx.req(not c, "fields that differ only in usage share a main item", lambda: "%s: %s" % (what, ", ".join(c)), WH + "main_merge.py", inp)
        ctx.req(not d, "three or more consecutive usages are a range", lambda: "%s: %s" % (what, ", ".join(d)), WH + "range_merge.py", inp)
    ctx.explore(what, fn, judge, limit)


def coll(*members):
    C = get(D + "Collection")
    return call(C, attr(C, "Application"), usage_obj(0x10002), *members)


BASE = dict(logicalMin=-50, logicalMax=100, physicalMin=-500, physicalMax=500, unit=0x11, unitExponent=2)
US = [0x10030, 0x10031, 0x10032, 0x10040]


def t_attr(name):
    dom = {"logicalMin": S31, "logicalMax": S31, "physicalMin": S31, "physicalMax": S31, "unit": (1 << 25, U32), "unitExponent": S31,
           "designator": (0, 255), "string": (0, 255), "size": (1, 64), "count": (1, 3)}[name]

    def run(ctx):
        for us in (US[:3], [0x10030, 0x10050, 0x10040], [0x10030, None, None], [None, None, None]):
            for k in (2, 3):
                for base in (BASE, dict(logicalMin=-50, logicalMax=100), dict(logicalMin=0, logicalMax=1)):
                    vs = [sym("v%d" % i, *dom) for i in range(k)]

                    def mk():
                        fs = []
                        for i in range(k):
                            a = dict(base)
                            size = 8
                            if name == "size":
                                size = vs[i]
                            else:
                                a[name] = vs[i]
                            fs.append(value("Input", None if us[i] is None else usage_obj(us[i]), size, **a))
                        return coll(*fs)
                    check(ctx, "%s differs, usages %s" % (name, [u and hex(u) for u in us[:k]]), mk)
    return run


def t_flags(ctx):
    """Every pair of flag values below 8 and some above; triples of a few."""
    vals = list(range(8)) + [0x12, 0x22, 0x42, 0x82, 0x102]
    for us in (US[:3], [None, None, None]):
        for k, vs in [(2, v) for v in itertools.product(vals, repeat=2)] + [(3, v) for v in itertools.product((0, 2, 3, 6), repeat=3)]:
            def mk():
                return coll(*[value("Input", None if us[i] is None else usage_obj(us[i]), 8, flags=vs[i], **BASE) for i in range(k)])
            check(ctx, "flags %s, usages %s" % (list(vs), [u and hex(u) for u in us[:k]]), mk)


def t_range(k, give):
    """Physical against logical range, abstract."""
    def run(ctx):
        def mk():
            fs = []
            for i in range(k):
                a = dict(logicalMin=sym("l%d" % i, *S31), logicalMax=sym("h%d" % i, *S31))
                if give[2 * i]:
                    a["physicalMin"] = sym("p%d" % i, *S31)
                if give[2 * i + 1]:
                    a["physicalMax"] = sym("q%d" % i, *S31)
                fs.append(value("Input", usage_obj(US[i]), 8, **a))
            return coll(*fs)
        check(ctx, "ranges, physical bounds given %s" % (give,), mk)
    return run


def t_usages(k):
    def run(ctx):
        page = sym("page", 1, 0xfeff)
        c = lambda i: usage_obj(add(lib.mul(page, 65536), sym("u%d" % i, 1, 60000)))
        check(ctx, "%d fields with abstract usages" % k, lambda: coll(*[value("Input", c(i), 8, **BASE) for i in range(k)]))
        check(ctx, "%d constant and other fields" % k, lambda: coll(*([value("Input", c(i), 8, **BASE) for i in range(k)] + [value("Input", None, 8, flags=3)] * 2)))
        for hasu in (False, True):
            check(ctx, "named array of %d abstract usages%s" % (k, " in a collection" if hasu else ""),
                  lambda: coll(value("Input", c(9) if hasu else None, 8, namedArray=lst(*[c(i) for i in range(k)]))))
            check(ctx, "named array over %d usages%s" % (k, " in a collection" if hasu else ""),
                  lambda: coll(value("Input", c(9) if hasu else None, 8, namedArray=call(get("hrdc.usage:UsageRange"), 0x10030, 0x10030 + k - 1))))
    return run


def t_large(ctx):
    C, T, R = get(D + "Collection"), get(D + "TopLevel"), get(D + "Report")
    bit = lambda c, way="Input", **k: value(way, usage_obj(c), 1, **dict(dict(logicalMin=0, logicalMax=1), **k))
    n = 300
    check(ctx, "%d fields in sequence" % n, lambda: coll(*[bit(0x90001 + i) for i in range(n)]))
    check(ctx, "%d fields with gaps" % n, lambda: coll(*[bit(0x90001 + 2 * i) for i in range(n)]))
    check(ctx, "%d fields over a page end" % n, lambda: coll(*[bit(0x9ff80 + i) for i in range(n)]))
    check(ctx, "%d fields, some apart" % n, lambda: coll(*[bit(0x90001 + i + i // 50) for i in range(n)]))
    check(ctx, "%d fields, units in turn" % n, lambda: coll(*[bit(0x90001 + i, unit=0x11 * (i // 30 % 2)) for i in range(n)]))
    check(ctx, "%d constants" % n, lambda: coll(*[value("Input", None, 1, flags=3) for i in range(n)]))
    check(ctx, "named array of %d" % n, lambda: coll(value("Input", None, 16, namedArray=lst(*[usage_obj(0x90001 + i) for i in range(n)])), bit(0x10030)))
    check(ctx, "named range of %d" % n, lambda: coll(value("Input", None, 16, namedArray=call(get("hrdc.usage:UsageRange"), 0x90001, 0x90000 + n)), bit(0x10030)))
    check(ctx, "255 reports", lambda: coll(*[call(R, i, bit(0x90001 + i), bit(0x90002 + i)) for i in range(1, 256)]))
    check(ctx, "reports in turn", lambda: coll(*[call(R, 1 + i % 3, bit(0x90001 + i), bit(0x90002 + i)) for i in range(100)]))

    def deep():
        x = bit(0x10030)
        for i in range(40):
            x = call(C, attr(C, "Logical"), usage_obj(0x10040 + i), x, bit(0x90001 + i), bit(0x90002 + i))
        return x
    check(ctx, "40 levels", deep)


def t_structure(ctx):
    C, T, R = get(D + "Collection"), get(D + "TopLevel"), get(D + "Report")
    v = lambda i, way="Input", **k: value(way, usage_obj(US[i]), 8, **dict(BASE, **k))
    a, b = sym("a", 1, 64), sym("b", 1, 64)
    pad = lambda n, way="Input": call(get(D + "Padding"), facing(way), n)
    P, L = attr(C, "Physical"), attr(C, "Logical")
    cases = {
        "two reports": lambda: coll(call(R, 1, v(0), v(1)), call(R, 2, v(0), v(1), v(2))),
        "same report again": lambda: coll(call(R, 1, v(0), v(1)), call(R, 1, v(2), v(3))),
        "nested": lambda: coll(v(0), call(C, P, usage_obj(0x10001), v(1), v(2)), v(3)),
        "two applications": lambda: call(T, coll(v(0), v(1)), coll(v(0), v(1))),
        "directions": lambda: coll(v(0), v(1), v(0, "Output"), v(1, "Output"), v(2), v(3, "Feature")),
        "padding of abstract size": lambda: coll(v(0), pad(a), pad(b), v(1), v(2)),
        "padding around": lambda: coll(pad(a), v(0), v(1), pad(a), pad(a)),
        "many buttons": lambda: coll(*[value("Input", usage_obj(0x90001 + i), 1, logicalMin=0, logicalMax=1) for i in range(8)]),
        "buttons, padding, axes": lambda: coll(*([value("Input", usage_obj(0x90001 + i), 1, logicalMin=0, logicalMax=1) for i in range(5)] + [pad(3)] + [v(i) for i in range(3)])),
        "usages down": lambda: coll(v(2), v(1), v(0)),
        "usages over a page end": lambda: coll(*[value("Input", usage_obj(0x1fffe + i), 8, **BASE) for i in range(4)]),
        "pages alternate": lambda: coll(v(0), value("Input", usage_obj(0x90001), 8, **BASE), v(1)),
        "values after bare collection": lambda: call(T, v(0), v(1), call(C, L, None, v(2)), v(3)),
        "same usage twice": lambda: coll(v(0), v(0), v(0)),
        "array beside fields": lambda: coll(v(0), value("Input", None, 8, namedArray=lst(*[usage_obj(0x70004 + i) for i in range(5)])), v(1), v(2)),
        "array of six": lambda: coll(value("Input", None, 8, count=6, namedArray=call(get("hrdc.usage:UsageRange"), 0x70000, 0x70065))),
    }
    for n, mk in cases.items():
        check(ctx, n, mk)


def kinds():
    V = lambda u, size=8, way="Input", **k: value(way, None if u is None else usage_obj(u), size, **dict(BASE, **k))
    return [
        lambda: V(0x10030), lambda: V(0x10031), lambda: V(0x10032), lambda: V(0x90001, 1, logicalMin=0, logicalMax=1, physicalMin=0, physicalMax=1, unit=0, unitExponent=0),
        lambda: V(0x90002, 1, logicalMin=0, logicalMax=1, physicalMin=None, physicalMax=None, unit=0, unitExponent=0),
        lambda: V(0x10033, 16), lambda: V(0x10034, way="Output"), lambda: V(0x10035, flags=6), lambda: V(0x10036, count=2),
        lambda: V(0x10037, designator=1), lambda: V(None, 8, flags=3), lambda: V(0x10038, physicalMin=-50, physicalMax=100),
        lambda: V(None, 8, namedArray=lst(*[usage_obj(0x70004 + i) for i in range(3)]))]


def t_enum(first, tier):
    def run(ctx):
        ks = kinds()
        n = 3 if tier == "quick" else 4
        c = 0
        for l in range(0, n):
            for rest in itertools.product(range(len(ks)), repeat=l):
                c += 1
                check(ctx, "fields of kinds %s" % ((first,) + rest,), lambda: coll(*[ks[i]() for i in (first,) + rest]))
        ctx.notes["sequences"] = c
    return run


FOREST = {"x": lambda: value("Input", usage_obj(0x10030), 8, **BASE), "y": lambda: value("Input", usage_obj(0x10031), 8, **BASE),
          "o": lambda: value("Output", usage_obj(0x10040), 8, logicalMin=0, logicalMax=1)}


def forests(n):
    """Every ordered forest of n nodes: leaves are fields, inner nodes collections and reports."""
    if n == 0:
        yield ()
        return
    for k in range(n):
        for rest in forests(n - 1 - k):
            for kids in forests(k):
                for l in "C12" if k else "xyoC":
                    yield ((l, kids),) + rest


def plant(f):
    C, R = get(D + "Collection"), get(D + "Report")
    out = []
    for l, kids in f:
        if l == "C":
            out.append(call(C, attr(C, "Logical"), usage_obj(0x10002), *plant(kids)))
        elif l in "12":
            out.append(call(R, int(l), *plant(kids)))
        else:
            out.append(FOREST[l]())
    return out


def fshow(f):
    return " ".join(l + ("(%s)" % fshow(k) if k else "") for l, k in f)


def t_forest(part, tier):
    def run(ctx):
        c = 0
        for n in range(1, 5 if tier == "quick" else 6):
            for j, f in enumerate(forests(n)):
                if j % 8 == part:
                    c += 1
                    check(ctx, "tree %s" % fshow(f), lambda: coll(*plant(f)))
        ctx.notes["trees"] = c
    return run


def tasks(tier):
    for i in range(8):
        yield "trees.%d" % i, t_forest(i, tier)
    for n in ("logicalMin", "logicalMax", "physicalMin", "physicalMax", "unit", "unitExponent", "designator", "string", "size", "count"):
        yield "attribute." + n, t_attr(n)
    yield "attribute.flags", t_flags
    for k in (1, 2):
        for give in itertools.product((0, 1), repeat=2 * k):
            yield "ranges.%s" % "".join(map(str, give)), t_range(k, give)
    for k in (2, 3, 4):
        yield "usages.%d" % k, t_usages(k)
    yield "structure", t_structure
    yield "large", t_large
    for i in range(13):
        yield "enum.%d" % i, t_enum(i, tier)
