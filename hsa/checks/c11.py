"""C11: decompiling reproduces every field and collection."""
import itertools
from .codec import *
from ..lib import lst, eqv, add, sub, Infeasible
from .. import hid
from .c07 import large, S31, uobj, it, text, DOM, APART, code
from .c09 import value, usage_obj

RULE = ("The extractor analysed on item streams with abstract values.  The tree it leaves, flattened, is matched against the stream "
        "read by the reference HID rules: every collection, field, padding and named array, with equal value numbers for every attribute.")
BOUNDS = ("template streams of up to 4 data items with abstract attribute values, counts up to 4; complete enumeration of short streams over "
          "alphabets of items (length per alphabet in the task notes); every pair of local items before a main item against every one "
          "after it; the cases take turns over the three directions")
MIN_OBLIGATIONS = {"quick": 4000}
WH = "hrdc/descriptor/extractor.py"
D = "hrdc.descriptor:"


def extract(items):
    x = call(get("hrdc.descriptor.extractor:Extractor"))
    for i in items:
        m(x, "append", i)
    return x


def conc(v):
    return w.concretize(v) if isinstance(v, AInt) else v


def count_is(us, f):
    return eqv(add(sub(f["LogicalMaximum"], f["LogicalMinimum"]), 1), len(us))


def expected(pairs):
    """Nested nodes: ["coll", kind, usage, children] and leaves (dict)."""
    root = []
    st = [root]
    for e in hid.read(pairs, strict=True):
        if e[0] == "open":
            n = ["coll", e[1], e[2][0] if e[2] else None, []]
            st[-1].append(n)
            st.append(n[3])
            continue
        if e[0] == "close":
            st.pop()
            continue
        if len(st) == 1:
            raise hid.Odd("field outside of a collection")
        f = e[1]
        fl = f["flags"]
        n = conc(f["ReportCount"])
        base = dict(tag=f["tag"], rid=f["ReportID"])
        if eqv(I.arith("&", fl, 1), 1):
            st[-1].append(dict(base, what="padding", size=lib.mul(f["ReportSize"], n)))
            continue
        base.update(size=f["ReportSize"], logicalMin=f["LogicalMinimum"], logicalMax=f["LogicalMaximum"], unit=f["Unit"], unitExponent=f["UnitExponent"])
        array = eqv(I.arith("&", fl, 3), 0)
        match = bool(f["u"]) and count_is(f["u"], f)
        if array and not f["u"] and count_is(f["u"], f):
            raise hid.Odd("empty logical range")
        if array and match and eqv(fl, 0):
            st[-1] += [dict(base, what="named array", usages=f["u"], designator=hid.pick(f["d"], 0), string=hid.pick(f["s"], 0), flags=0)] * n
            one = n == 1
        else:
            a, b = hid.physical(f)
            base.update(what="field", flags=fl, physicalMin=a, physicalMax=b)
            for i in range(n):
                g = dict(base, designator=hid.pick(f["d"], i), string=hid.pick(f["s"], i))
                # an array the tree cannot express: which usage an element has is open
                if not array or len(f["u"]) <= 1:
                    g["usage"] = hid.pick(f["u"], i)
                # the only use of this for a variable field is a selector
                if n == 1 and match and eqv(fl, 2):
                    g["all"] = f["u"]
                st[-1].append(g)
    if len(st) != 1:
        raise hid.Odd("collection left open")
    return root


def found(elem, rid=0):
    """The same nodes, from a tree."""
    kind = None
    for n in ("Align", "Padding", "Value", "Report", "Collection", "TopLevel"):
        if get(D + n) in elem.cls.mro:
            kind = n
            break
    if kind in ("TopLevel", "Report", "Collection"):
        if kind == "Report":
            rid = int_of(attr(elem, "id"))
        out = []
        for x in I.iterate_list(elem):
            out += found(x, rid)
        if kind == "Collection":
            u = attr(elem, "usage")
            return [["coll", int_of(attr(elem, "kind")), None if u is None else int_of(u), out]]
        return out
    at = lambda n: int_of(attr(elem, n))
    way = at("way")
    base = dict(tag={8: "Input", 9: "Output", 11: "Feature"}[conc(way)], rid=rid)
    if kind == "Align":
        return [dict(base, what="alignment")]
    c = conc(at("count"))
    fl = at("flags")
    if kind == "Padding" or eqv(I.arith("&", fl, 1), 1):
        return [dict(base, what="padding", size=lib.mul(at("size"), c))]
    for n in ("size", "logicalMin", "logicalMax", "unit", "unitExponent", "designator", "string", "flags"):
        base[n] = at(n)
    u = attr(elem, "usage")
    base["usage"] = 0 if u is None else int_of(u)
    na = attr(elem, "namedArray")
    if na is not None:
        base.update(what="named array", usages=[int_of(x) for x in I.iterate_list(na)])
    else:
        a, b = attr(elem, "physicalMin"), attr(elem, "physicalMax")
        a, b = hid.physical(dict(PhysicalMinimum=int_of(a), PhysicalMaximum=int_of(b), LogicalMinimum=base["logicalMin"], LogicalMaximum=base["logicalMax"]))
        base.update(what="field", physicalMin=a, physicalMax=b)
    return [base] * c


def name(n):
    return "collection" if isinstance(n, list) else "%s %s" % (n["tag"], n["what"])


def attrs(a, b, keys, where):
    for k in keys:
        if k in a and not same(a[k], b[k]):
            return "%s: %s is %s, expected %s" % (where, {"rid": "report id"}.get(k, k), show(b[k]), show(a[k]))
    return None


KEYS = ("rid", "size", "logicalMin", "logicalMax", "unit", "unitExponent", "designator", "string", "flags", "physicalMin", "physicalMax", "usage")


def collapsed(e, t):
    """A collection that became one value with a named array."""
    if not isinstance(e, list) or isinstance(t, list) or t["what"] != "named array" or len(e[3]) != 1:
        return None
    f = e[3][0]
    if isinstance(f, list) or f["tag"] != t["tag"]:
        return None
    us = f["usages"] if f["what"] == "named array" else f.get("all")
    if us is None:
        return None
    return dict(f, usages=us, usage=0 if e[2] is None else e[2])


def match(want, got, path=""):
    if len(want) != len(got):
        return "%s holds [%s], expected [%s]" % (path or "the tree", ", ".join(map(name, got)), ", ".join(map(name, want)))
    for no, (e, t) in enumerate(zip(want, got)):
        here = "%s/%s %d" % (path, name(e), no)
        c = collapsed(e, t)
        if c is not None:
            e = c
            keys = [k for k in KEYS if k not in ("flags", "physicalMin", "physicalMax")]
        elif name(e) != name(t):
            return "%s became %s" % (here, name(t))
        elif isinstance(e, list):
            if not same(e[1], t[1]):
                return "%s: kind is %s, expected %s" % (here, show(t[1]), show(e[1]))
            if (e[2] is None) != (t[2] is None) or e[2] is not None and not same(e[2], t[2]):
                return "%s: usage is %s, expected %s" % (here, show(t[2]), show(e[2]))
            d = match(e[3], t[3], here)
            if d:
                return d
            continue
        else:
            keys = KEYS
            if e["what"] == "named array" and not same(t["usage"], 0):
                return "%s: has usage %s of its own" % (here, show(t["usage"]))
        d = attrs(e, t, keys, here)
        if d:
            return d
        if "usages" in e and "usages" in t:
            if len(e["usages"]) != len(t["usages"]) or not all(same(x, y) for x, y in zip(e["usages"], t["usages"])):
                return "%s: named array is %s, expected %s" % (here, show(t["usages"]), show(e["usages"]))
    return None


def mixed_range(pairs):
    """A usage range with one short and one extended bound."""
    mn = None
    for n, v in pairs:
        if n == "UsageMinimum":
            mn = v
        elif n == "UsageMaximum" and mn is not None:
            if lib.le(mn, 0xffff) != lib.le(v, 0xffff):
                return True
    return False


def check(ctx, what, mk, limit=20000):
    turn = ctx.turn()

    def fn():
        TURN[0] = turn
        src = [(turned(n), v) for n, v in mk()]
        pairs = [(n, int_of(v)) for n, v in src]
        if hid.ambiguous(pairs) or mixed_range(pairs):
            raise Infeasible
        try:
            want = expected(pairs)
        except hid.Odd:
            raise Infeasible
        x = extract([it(n, v) for n, v in src])
        return pairs, want, found(attr(x, "root"))

    def judge(k, r):
        if k == "exc":
            ctx.bad("decompiling succeeds", "%s: %s" % (what, lib.exc_str(r)), r.where, what)
            return
        pairs, want, got = r
        d = match(want, got)
        ctx.req(d is None, "same tree", lambda: "%s: %s" % (what, d), WH, lambda: text(pairs))
    ctx.explore(what, fn, judge, limit)


C, E = [("Usage", 0x10002), ("Collection", 1)], [("EndCollection", 0)]


def wrap(x):
    return C + x + E


def pre(count=1, page=True):
    return [(n, sym(n, *APART[n])) for n in APART] + [("ReportCount", count)]


def us(t):
    return ("Usage", uobj(code(t, sym("page", 0x100, 0xfeff))))


def t_global(name):
    lo, hi = DOM[name]

    def run(ctx):
        for tags in (("Input", "Input"), ("Output", "Feature")):
            for fl in (2, 3, 0, 0x102, 6, 1, 4, 0x100):
                for cnt in (1, 2):
                    a, b = sym("a", lo, hi), sym("b", lo, hi)
                    U = [("Usage", uobj(0x1000001 + 2 * i)) for i in range(3)]
                    check(ctx, "%s changes, flags %d, count %d" % (name, fl, cnt),
                          lambda: pre(cnt) + wrap([(name, a), U[0], (tags[0], fl), U[1], (tags[1], fl), (name, b), U[2], (tags[1], fl)]))
                    check(ctx, "%s set once, flags %d, count %d" % (name, fl, cnt),
                          lambda: [x for x in pre(cnt) if x[0] != name] + wrap([U[0], (tags[0], fl), (name, b), U[1], (tags[1], fl)]))
    return run


def t_counts(fl):
    def run(ctx):
        for nu in range(4):
            for nd in (0, 1, 2):
                for ns in (0, 2):
                    def mk():
                        p = pre(sym("count", 0, 4)) + C
                        p += [us("%d" % i) for i in range(nu)] + [("DesignatorIndex", sym("d%d" % i, 0, U32)) for i in range(nd)]
                        p += [("StringIndex", sym("s%d" % i, 0, U32)) for i in range(ns)]
                        return p + [("Input", fl), us("l"), ("Input", 2)] + E
                    check(ctx, "flags %d, %d usages, %d designators, %d strings" % (fl, nu, nd, ns), mk)
    return run


def t_flags(high):
    """All combinations of the nine defined flags."""
    def run(ctx):
        for f in range(64 * high, 64 * high + 64):
            for n in (1, 2):
                check(ctx, "flags %#x, count %d" % (f, n), lambda: pre(n) + wrap([us("a"), ("Input", f)]))
                check(ctx, "flags %#x, two usages, count %d" % (f, n), lambda: pre(n) + wrap([us("a"), us("b"), ("Output", f)]))
                check(ctx, "flags %#x, as many usages as values, count %d" % (f, n),
                      lambda: pre(n) + [("LogicalMinimum", 1), ("LogicalMaximum", 2)] + wrap([us("a"), us("b"), ("Output", f)]))
        if not high:
            for f in (0x200, 0x202, 0x8002, 0x10000, 0x10002, 0x80000102):
                check(ctx, "reserved flags %#x" % f, lambda: pre(2) + wrap([us("a"), us("b"), ("Feature", f)]))
    return run


def t_arrays(ctx):
    C_ = lambda k, u=None: ([("Usage", u)] if u else []) + [("Collection", k)]
    nary = [0x90001 >> 0, 0xc0001, 0x200316, 0x10080]
    for k in (1, 2, 3, 4):
        for n in (1, 2, 3):
            a = sym("lo", *S31)
            rng = lambda d=0: [("LogicalMinimum", a), ("LogicalMaximum", add(a, k - 1 + d))]
            U = lambda: [us("%d" % i) for i in range(k)]
            u = add(0x1000000, sym("u", 1, 60000))
            R = lambda: [("UsageMinimum", uobj(u)), ("UsageMaximum", uobj(add(u, k - 1)))]
            for what, LU in (("list", U), ("range", R)):
                extra = [("DesignatorIndex", sym("d", 0, 255)), ("StringIndex", sym("s", 0, 255))]
                check(ctx, "array of %d, %s of %d" % (n, what, k), lambda: pre(n) + rng() + wrap(LU() + [("Input", 0)]))
                check(ctx, "array of %d, %s of %d, with more" % (n, what, k), lambda: pre(n) + rng() + wrap(LU() + extra + [("Input", 0), us("x"), ("Input", 2)]))
                check(ctx, "array of %d, %s of %d, longer range" % (n, what, k), lambda: pre(n) + rng(1) + wrap(LU() + extra + [("Input", 0), us("x"), ("Input", 2)]))
                check(ctx, "array of %d, %s of %d, abstract range" % (n, what, k), lambda: pre(n) + wrap(LU() + [("Output", 0)]))
                for kind in (2, 4, 0):
                    for fl in (0, 2, 6, 0x102, 4):
                        if n == 3 or k == 4:
                            continue
                        for cu in (None, 0x1000005, 0x200316, 0x200313, 0x10005):
                            inner = C_(kind, cu)
                            check(ctx, "kind %d collection (%s), flags %d, %s of %d, count %d" % (kind, cu and hex(cu), fl, what, k, n),
                                  lambda: pre(n) + rng() + wrap(inner + LU() + extra + [("Input", fl)] + E))
                            check(ctx, "kind %d collection (%s), two fields, flags %d, %s of %d, count %d" % (kind, cu and hex(cu), fl, what, k, n),
                                  lambda: pre(n) + rng() + wrap(inner + LU() + [("Input", fl)] + extra + LU() + [("Input", fl)] + E + [us("z"), ("Input", 2)]))


def t_selector(ctx):
    """A selector collection among fields, reports and paddings."""
    a = sym("lo", -100, 100)
    rng = [("LogicalMinimum", a), ("LogicalMaximum", add(a, 1))]
    for cu in (0x200316, 0x1000005):
        for kind in (2, 4):
            for fl in (0, 2):
                S = [("Usage", cu), ("Collection", kind)]
                F = rng + [us("p"), us("q"), ("Input", fl)]
                W = "selector %#x kind %d flags %d: " % (cu, kind, fl)
                cases = {
                    "alone": lambda: wrap(S + F + E),
                    "then field": lambda: wrap(S + F + E + [us("b"), ("Input", 2)]),
                    "after field": lambda: wrap([us("b"), ("Input", 2)] + S + F + E),
                    "with padding": lambda: wrap(S + F + [("Input", 3)] + E),
                    "padding first": lambda: wrap(S + [("Input", 3)] + F + E),
                    "with inner collection": lambda: wrap(S + F + S + F + E + E),
                    "with other field": lambda: wrap(S + F + [us("b"), ("Input", 2)] + E),
                    "report before": lambda: wrap([("ReportID", 1)] + S + F + E + [("ReportID", 2), us("b"), ("Input", 2)]),
                    "report after": lambda: wrap([("ReportID", 1), us("b"), ("Input", 2), ("ReportID", 2)] + S + F + E),
                    "report inside": lambda: wrap([("ReportID", 1)] + S + [("ReportID", 2)] + F + E + S + F + E),
                    "two reports inside": lambda: wrap(S + [("ReportID", 1)] + F + [("ReportID", 2)] + F + E),
                    "top level": lambda: S + F + E,
                    "only inner": lambda: wrap(S + S + F + E + E),
                }
                for n, mk in cases.items():
                    check(ctx, W + n, lambda: pre() + mk())


def t_reports(ctx):
    F = lambda t="b": [us(t), ("Input", 2)]
    r, q, p = sym("r", 1, 255), sym("q", 1, 255), sym("p", 1, 255)
    R = lambda v: [("ReportID", v)]
    P = [("Usage", 0x10001), ("Collection", 0)]
    base = [x for x in pre() if x[0] != "ReportID"]
    cases = {
        "none": lambda: wrap(F()),
        "one": lambda: wrap(R(r) + F()),
        "before": lambda: R(r) + wrap(F()),
        "two": lambda: wrap(R(r) + F() + R(q) + F("c")),
        "back": lambda: wrap(R(r) + F() + R(q) + F("c") + R(r) + F("d")),
        "three": lambda: wrap(R(r) + F() + R(q) + F("c") + R(p) + F("d")),
        "late": lambda: wrap(F() + R(q) + F("c")),
        "nested": lambda: wrap(R(r) + F() + P + F("c") + E + F("d")),
        "nested change": lambda: wrap(R(r) + F() + P + F("c") + R(q) + F("d") + E + F("e")),
        "nested own": lambda: wrap(P + R(r) + F() + E + P + R(q) + F("c") + E),
        "nested both": lambda: wrap(P + R(r) + F() + E + P + R(q) + F("c") + R(r) + F("d") + E),
        "two applications": lambda: wrap(R(r) + F()) + wrap(R(q) + F("c")),
        "two applications, mixed": lambda: wrap(R(r) + F() + R(q) + F("c")) + wrap(F("d")),
        "constants": lambda: wrap(R(r) + [("Input", 3)] + R(q) + [("Input", 1)] + F()),
        "deep": lambda: wrap(P + P + R(r) + F() + E + R(q) + F("c") + E + F("d")),
        "empty": lambda: wrap(R(r) + P + E + F()),
        "empty only": lambda: wrap(P + E),
        "empty between": lambda: wrap(R(r) + F() + P + E + F("c")),
        "empty application": lambda: wrap([]) + wrap(R(r) + F()),
    }
    for n, mk in cases.items():
        check(ctx, "reports: " + n, lambda: base + mk())


def t_state(ctx):
    """Push, Pop, pages and lifetimes of locals."""
    I2 = ("Input", 2)
    for n in list(DOM) + ["UsagePage", "ReportCount"]:
        lo, hi = {"UsagePage": (0x100, 0xfeff), "ReportCount": (1, 3)}.get(n, DOM.get(n))
        U = ("Usage", 1) if n == "UsagePage" else ("Usage", uobj(0x1000001))
        base = [x for x in pre() if x[0] != n] + ([("UsagePage", 0x300)] if n != "UsagePage" else [])
        a, b, c = sym("a", lo, hi), sym("b", lo, hi), sym("c", lo, hi)
        check(ctx, "Push, %s, Pop" % n, lambda: base + wrap([(n, a), ("Push", 0), (n, b), U, I2, ("Pop", 0), U, I2]))
        check(ctx, "Push, Pop, %s" % n, lambda: base + wrap([(n, a), U, I2, ("Push", 0), ("Pop", 0), (n, b), U, I2]))
        check(ctx, "nested Push, %s" % n, lambda: base + wrap([(n, a), ("Push", 0), (n, b), ("Push", 0), (n, c), U, I2, ("Pop", 0), U, I2, ("Pop", 0), U, I2]))
        check(ctx, "Push twice, %s" % n, lambda: base + wrap([(n, a), ("Push", 0), ("Push", 0), (n, b), U, I2, ("Pop", 0), U, I2, (n, c), ("Pop", 0), U, I2]))
        if n != "UsagePage":
            check(ctx, "%s set after Push" % n, lambda: base + wrap([("Push", 0), (n, b), U, I2, ("Pop", 0), U, I2]))
        check(ctx, "Push over a collection, %s" % n, lambda: base + [(n, a), ("Push", 0)] + wrap([(n, b), U, I2, ("Pop", 0), U, I2]))
    p1, p2 = sym("p1", 0x100, 0xfeff), sym("p2", 0x100, 0xfeff)
    s = lambda n: ("Usage", sym(n, 1, 60000))
    x = lambda n: ("Usage", uobj(code(n, sym("pe", 0x100, 0xfeff))))
    R = lambda v, k: [("UsageMinimum", v), ("UsageMaximum", add(v, k))]
    a = sym("a", 1, 60000)
    e = code("e", sym("pe", 0x100, 0xfeff))
    b = pre()
    P = lambda v: [("UsagePage", v)]
    N = lambda v: [("ReportCount", v)]
    cases = {
        "two pages": lambda: P(p1) + [s("a"), I2] + P(p2) + [s("b"), I2],
        "page kept": lambda: P(p1) + [s("a"), I2, s("b"), I2],
        "extended between": lambda: P(p1) + [s("a"), I2, x("b"), I2, s("c"), I2],
        "mixed in one item": lambda: N(3) + P(p1) + [s("a"), x("b"), s("c"), I2],
        "page 0": lambda: [s("a"), I2],
        "page over collection": lambda: P(p1) + [s("a"), ("Collection", 0), s("b"), I2] + E + [s("c"), I2],
        "extended on collection": lambda: P(p1) + [x("a"), ("Collection", 0), s("b"), I2] + E + [s("c"), I2],
        "short range": lambda: N(3) + P(p1) + R(a, 2) + [I2],
        "extended range": lambda: N(3) + R(uobj(e), 2)[:1] + [("UsageMaximum", uobj(add(e, 2)))] + [I2],
        "short range of one": lambda: N(2) + P(p1) + R(a, 0) + [I2],
        "range and usage": lambda: N(4) + P(p1) + R(a, 1) + [x("t"), I2],
        "usage and range": lambda: N(4) + P(p1) + [x("t")] + R(a, 1) + [I2],
        "two ranges": lambda: N(4) + P(p1) + R(a, 1) + R(sym("f", 1, 60000), 1) + [I2],
        "maximum first": lambda: N(2) + P(p1) + [("UsageMaximum", add(a, 1)), ("UsageMinimum", a), I2],
        "range cleared": lambda: N(2) + P(p1) + R(a, 1) + [I2] + [s("z"), I2],
        "field without usage after": lambda: N(2) + P(p1) + R(a, 1) + [I2, I2],
        "locals do not leak over end": lambda: P(p1) + [s("a"), ("Collection", 0), s("b"), ("DesignatorIndex", 3), I2] + E + [I2],
        "locals do not leak into collection": lambda: P(p1) + [s("a"), ("StringIndex", 4), ("Collection", 0), I2] + E,
        "locals before end": lambda: P(p1) + [s("b"), ("Collection", 0), I2, s("a"), ("StringIndex", 4)] + E + [I2],
        "designator range": lambda: N(3) + [us("a"), ("DesignatorMinimum", a), ("DesignatorMaximum", add(a, 2)), I2, us("b"), I2],
        "string range": lambda: N(3) + [us("a"), ("StringMinimum", a), ("StringMaximum", add(a, 2)), I2, us("b"), I2],
        "designator and range": lambda: N(3) + [us("a"), ("DesignatorIndex", 9), ("DesignatorMinimum", a), ("DesignatorMaximum", add(a, 1)), I2],
        "page after Pop": lambda: P(p1) + [("Push", 0)] + P(p2) + [s("a"), I2, ("Pop", 0), s("b"), I2],
        "constant between": lambda: P(p1) + [s("a"), I2, ("Input", 3), s("b"), I2, ("Input", 1)],
    }
    for n, mk in cases.items():
        check(ctx, n, lambda: b + wrap(mk()))


FIRST = [[("Input", 2)], [("Input", 3)], [("Input", 0)], [("Collection", 2), ("Usage", 0x10031), ("Input", 2)] + E]


def t_lifetime(ctx, first):
    """What stands before one main item has no part in the next, whatever stands there.
    Each of the first items is one node of the tree."""
    H = [("UsagePage", 1), ("ReportSize", 8), ("ReportCount", 1), ("LogicalMinimum", 0), ("LogicalMaximum", 1)]
    names = [n for n in spec.ITEMS if spec.ITEMS[n][0] == 2 and n != "Delimiter"]

    def nodes(st):
        return found(attr(extract([it(n, v) for n, v in st]), "root"))

    def run(junk, rest):
        what = "%s before %s, then %s" % (text(junk), text(first), text(rest))
        turn = ctx.turn()

        def fn():
            TURN[0] = turn
            a, b = [[(turned(n), v) for n, v in H + wrap(j + first + rest)] for j in (junk, [])]
            try:
                plain = nodes(b)
            except lib.PyExc:
                raise Infeasible
            return plain, nodes(a)

        def judge(k, r):
            if k == "exc":
                ctx.bad("locals apply to one main item only", "%s: %s" % (what, lib.exc_str(r)), r.where, what)
                return
            plain, got = [x[0][3][1:] if len(x) == 1 and isinstance(x[0], list) else None for x in r]
            if plain is None:
                return
            d = "the collection is gone" if got is None else match(plain, got)
            ctx.req(d is None, "locals apply to one main item only", lambda: "%s: %s" % (what, d), WH, what)
        ctx.explore(what, fn, judge)

    for junk in [[(n, v)] for n in names for v in (3,)] + [[(a, 3), (b, 4)] for a in names for b in names]:
        for rest in [[("Input", 2)]] + [[(n, 5), ("Usage", 0x10042), ("Input", 2)] for n in names] + [[("Usage", 0x10042), (n, 5), ("Input", 0)] for n in names[:3]]:
            run(junk, rest)


def t_two_ranges(ctx):
    """Two ranges of a kind before one main item, each with either end first, and a
    range whose ends stand apart."""
    a = 10
    pre = lambda n: [("ReportSize", 8), ("ReportCount", n), ("LogicalMinimum", -1), ("LogicalMaximum", 30)]
    for kind, dom in (("Usage", None), ("Designator", None), ("String", None)):
        mn, mx, one = kind + "Minimum", kind + "Maximum", kind if kind == "Usage" else kind + "Index"
        for o1, o2 in itertools.product((1, -1), repeat=2):
            r1 = [(mn, a), (mx, add(a, 1))][::o1]
            r2 = [(mn, add(a, 5)), (mx, add(a, 7))][::o2]
            for mid in ([], [(one, add(a, 20))]):
                for fl in (2, 0, 0x102):
                    for n in (1, 6):
                        check(ctx, "two %s ranges" % kind, lambda: pre(n) + [("UsagePage", 1)] + wrap(r1 + mid + r2 + [("Input", fl)] + r2 + [("Input", fl)]))
            check(ctx, "%s range with something inside" % kind, lambda: pre(4) + [("UsagePage", 1)] + wrap([r1[0], ("StringIndex" if kind != "String" else "DesignatorIndex", 3), r1[1]] + r2 + [("Input", 2)]))


def t_nesting(ctx):
    C_ = lambda n="k": ("Collection", sym(n, 7, U32))
    I2 = ("Input", 2)
    En = ("EndCollection", 0)
    cases = {
        "nested": lambda: [us("a"), C_(), us("b"), I2, us("c"), C_("l"), us("d"), I2, En, us("e"), I2, En],
        "deep": lambda: [us("a"), C_(), C_("l"), us("c"), C_("m"), us("d"), I2, En, En, En],
        "siblings": lambda: [us("a"), C_(), us("b"), C_("l"), us("c"), I2, En, us("d"), C_("m"), us("e"), I2, En, En],
        "empty": lambda: [us("a"), C_(), En, us("b"), C_("l"), En],
        "applications": lambda: [us("a"), C_(), us("b"), I2, En, us("c"), C_("l"), us("d"), I2, En, C_("m"), us("e"), I2, En],
        "trailing globals": lambda: [us("a"), C_(), us("b"), I2, En, ("ReportSize", 3), ("Push", 0)],
    }
    for n, mk in cases.items():
        check(ctx, n, lambda: pre() + mk())
    for k in range(0, 9):
        check(ctx, "collection kind %d" % k, lambda: pre() + [us("a"), ("Collection", k), us("b"), I2, En])


A = {
    "sizes": ([("ReportSize", 16), ("ReportCount", 2), ("ReportCount", 0), ("Usage", 0x10001), ("Usage", 0x10038), ("Input", 2), ("Output", 0x102), ("Feature", 3)],
              [("ReportSize", 8), ("ReportCount", 1), ("LogicalMaximum", 5)] + C, [("Input", 2)] + E, 4, 6),
    "ranges": ([("LogicalMinimum", 1), ("LogicalMaximum", 3), ("PhysicalMinimum", 1), ("PhysicalMinimum", 0), ("PhysicalMaximum", 3), ("PhysicalMaximum", 0), ("Input", 2)],
               [("ReportSize", 8), ("ReportCount", 1), ("LogicalMaximum", 1)] + C, [("Usage", 0x10001), ("Input", 2)] + E, 4, 6),
    "push": ([("Push", 0), ("Pop", 0), ("ReportSize", 8), ("LogicalMaximum", 1), ("UsagePage", 2), ("ReportID", 4), ("Usage", 1), ("Input", 2)],
             [("UsagePage", 1), ("ReportSize", 4), ("ReportCount", 1)] + C, [("Usage", 1), ("Input", 2)] + E, 4, 6),
    "pages": ([("UsagePage", 1), ("UsagePage", 9), ("Usage", 1), ("Usage", 0x90002), ("ReportCount", 2), ("Input", 2), ("Collection", 0), ("EndCollection", 0)],
              [("UsagePage", 1), ("ReportSize", 8), ("ReportCount", 1), ("LogicalMaximum", 1)] + C, [("Input", 2)] + E, 5, 6),
    "locals": ([("DesignatorIndex", 1), ("DesignatorIndex", 2), ("StringIndex", 1), ("StringIndex", 2), ("Usage", 0x10001), ("Input", 2), ("ReportCount", 2), ("Collection", 0), ("EndCollection", 0)],
               [("ReportSize", 8), ("ReportCount", 1), ("LogicalMaximum", 1)] + C, [("Input", 2)] + E, 4, 6),
    "arrays": ([("Input", 0), ("Input", 2), ("Input", 3), ("ReportCount", 2), ("LogicalMaximum", 2), ("Usage", 0x70004), ("Usage", 0x70005), ("Collection", 2), ("Collection", 4), ("EndCollection", 0)],
               [("ReportSize", 8), ("ReportCount", 1), ("LogicalMinimum", 1), ("LogicalMaximum", 1)] + C, [("Usage", 0x10003), ("Input", 2)] + E, 4, 5),
    "minmax": ([("UsageMinimum", 1), ("UsageMaximum", 3), ("UsageMinimum", 0x10002), ("UsageMaximum", 0x10002), ("Usage", 0x10004), ("DesignatorMinimum", 1), ("DesignatorMaximum", 3), ("StringMinimum", 7), ("StringMaximum", 8), ("Input", 2), ("Input", 0)],
               [("UsagePage", 1), ("ReportSize", 8), ("ReportCount", 3), ("LogicalMinimum", 1), ("LogicalMaximum", 3)] + C, [("Input", 2)] + E, 4, 5),
    "reports": ([("ReportID", 1), ("ReportID", 2), ("Usage", 0x10001), ("Input", 2), ("Output", 3), ("Collection", 0), ("EndCollection", 0)],
                [("ReportSize", 8), ("ReportCount", 1), ("LogicalMaximum", 1)] + C, [("Usage", 0x10002), ("Input", 2)] + E, 5, 7),
}


def t_large(ctx):
    for n, st in large():
        if n != "count of many":
            check(ctx, "many %s" % n, lambda: list(st))


def t_enum(name, first, tier):
    al, head, tail, q, th = A[name]
    n = q if tier == "quick" else th

    def balance(seq):
        d = 0
        for i, _ in seq:
            d += (i == "Collection") - (i == "EndCollection")
            if d < 0:
                return None
        return d

    def run(ctx):
        count = 0
        for l in range(0, n):
            for rest in itertools.product(al, repeat=l):
                mid = [al[first]] + list(rest)
                d = balance(mid)
                if d is None:
                    continue
                seq = head + mid + tail + E * d
                count += 1
                check(ctx, "stream " + name, lambda: list(seq))
        ctx.notes["streams"] = count
        ctx.notes["length"] = n
    return run


def tasks(tier):
    for n in DOM:
        yield "global.%s" % n, t_global(n)
    for fl in (2, 0x102, 0, 3, 6):
        yield "counts.%d" % fl, t_counts(fl)
    for i in range(8):
        yield "flags.%d" % i, t_flags(i)
    yield "arrays", t_arrays
    yield "large", t_large
    yield "selector", t_selector
    yield "reports", t_reports
    yield "state", t_state
    yield "nesting", t_nesting
    yield "two ranges", t_two_ranges
    for i, first in enumerate(FIRST):
        yield "lifetime.%d" % i, lambda ctx, first=first: t_lifetime(ctx, first)
    for n, x in A.items():
        for i in range(len(x[0])):
            yield "enum.%s.%d" % (n, i), t_enum(n, i, tier)
