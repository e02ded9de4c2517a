"""C07: optimizing never changes what a descriptor means."""
import itertools
from .codec import *
from ..lib import AList, lst, eqv, add, sub, Infeasible
from .. import hid

RULE = ("The whole optimizer pipeline (Optimizer.new over a sink) analysed on item streams with abstract values; input and output "
        "are read by the same reference HID rules and must give the same sequence of collections and fields with equal value "
        "numbers for every attribute on every partition, and the sink is closed exactly once, last.")
BOUNDS = ("template streams of up to 4 data fields with abstract attribute values over their whole range (equality patterns are "
          "partitioned, not sampled); complete enumeration of short streams over nine alphabets of items (length per alphabet in the task notes) and of Push/Pop/value "
          "sequences; streams of hundreds of items; the cases take turns over the three directions")
MIN_OBLIGATIONS = {"quick": 20000}
WH = "hrdc/stream/optimizer/"
S31 = (-(1 << 31), (1 << 31) - 1)
UOBJ = {}


def uobj(v):
    """A usage constant of that code, not in the registry."""
    return call(get("hrdc.usage:Usage"), "mod.Name", v, register=False)


def it(n, v=0):
    """An item; usages given as abstract extended codes are usage objects."""
    c = get(ITEM + n)
    if n in spec.NO_VALUE:
        return call(c)
    return call(c, v)


def optimize(items):
    s = lib.sink()
    o = call(get("hrdc.stream.optimizer:Optimizer.new"), s)
    for i in items:
        m(o, "append", i)
    m(o, "close")
    return s


def short_without_page(pairs):
    pg, st = 0, []
    for n, v in pairs:
        if n == "UsagePage":
            pg = v
        elif n == "Push":
            st.append(pg)
        elif n == "Pop" and st:
            pg = st.pop()
        elif n in ("Usage", "UsageMinimum", "UsageMaximum") and isinstance(pg, int) and pg == 0 and isinstance(v, int) and not v >> 16:
            return True
    return False


def text(pairs):
    return " ".join("%s(%s)" % (n, show(v)) if n not in spec.NO_VALUE else n for n, v in pairs)


# what is pending at the end shows in a field read after it
PROBE = [("ReportCount", 1), ("Input", 2)]


def check(ctx, what, mk, limit=20000, tail=False):
    """mk() -> list of (name, value) with value int/AInt/usage object."""
    turn = ctx.turn()
    add_tail = (lambda p: p + PROBE) if tail else (lambda p: p)

    def fn():
        TURN[0] = turn
        src = [(turned(n), v) for n, v in mk()]
        pairs = [(n, int_of(v)) for n, v in src]
        if hid.ambiguous(pairs) or short_without_page(pairs):
            raise Infeasible
        strict = True
        try:
            hid.read(add_tail(pairs), strict=True)
        except hid.Odd:
            strict = False
        try:
            want = hid.fields(hid.read(add_tail(pairs)))
        except hid.Odd:
            raise Infeasible
        s = optimize([it(n, v) for n, v in src])
        out = [hid.named(i) for i in attr(s, "items").v]
        bad = None
        got = []
        for late in (True, False):
            if not late and not hid.ambiguous(out):
                break
            try:
                got.append(hid.fields(hid.read(add_tail(out), late, strict)))
            except hid.Odd as e:
                bad = str(e)
        return pairs, want, out, got, bad, s

    def judge(k, r):
        if k == "exc":
            ctx.bad("optimizing succeeds", "%s: %s" % (what, lib.exc_str(r)), r.where, what)
            return
        pairs, want, out, got, bad, s = r
        inp = lambda: "%s -> %s" % (text(pairs), text(out))
        ctx.req(attr(s, "closed") == 1 and attr(s, "late") == 0, "closed once, after the last item",
                lambda: "%s: closed %s times" % (what, show(attr(s, "closed"))), WH, inp)
        if bad:
            ctx.bad("the optimized stream is well formed", "%s: %s" % (what, bad), WH, inp())
            return
        for g in got:
            d = hid.diff(want, g)
            ctx.req(d is None, "same meaning", lambda: "%s: %s" % (what, d), WH, inp)
    ctx.explore(what, fn, judge, limit)


# -- abstract templates -----------------------------------------------------------------

DOM = {"LogicalMinimum": S31, "LogicalMaximum": S31, "PhysicalMinimum": S31, "PhysicalMaximum": S31, "UnitExponent": S31,
       "Unit": (1 << 25, U32), "ReportSize": (0, U32), "ReportID": (1, 255)}
APART = {"LogicalMinimum": (-1000, -1), "LogicalMaximum": (1, 1000), "PhysicalMinimum": (-5000, -2000), "PhysicalMaximum": (2000, 5000),
         "UnitExponent": (1, 7), "Unit": (1 << 25, 1 << 26), "ReportSize": (1, 64), "ReportID": (1, 255)}


def pre(count=1):
    """All globals set, to abstract values that are told apart."""
    return [(n, sym(n, *APART[n])) for n in APART] + [("ReportCount", count)]


def code(t, page=None):
    """An abstract extended usage code, on an abstract page."""
    return add(lib.mul(sym("pg" + t, 1, 65535) if page is None else page, 65536), sym("u" + t, 1, 60000))


PAGE = [None]


def us(t):
    """All on the same abstract page."""
    if PAGE[0] is None:
        PAGE[0] = sym("page", 1, 65535)
    return ("Usage", uobj(code(t, PAGE[0])))


def t_global(name):
    lo, hi = DOM[name]
    nounit = name == "Unit"

    def run(ctx):
        for tags in (("Input", "Input", "Input"), ("Output", "Input", "Output")):
            for fl in (2, 3, 0, 0x102):
                a, b, c = sym("a", lo, hi), sym("b", lo, hi), sym("c", lo, hi)
                U = [("Usage", uobj(0x10001 + 0x10002 * i)) for i in range(3)]
                mk = lambda: pre() + [(name, a), U[0], (tags[0], fl), (name, b), U[1], (tags[1], fl), (name, c), U[2], (tags[2], fl)]
                check(ctx, "%s changes, flags %d" % (name, fl), mk)
                check(ctx, "%s changes back, flags %d" % (name, fl),
                      lambda: [x for x in pre() if x[0] != name] + [U[0], (tags[0], fl), (name, b), (name, a), U[1], (tags[1], fl), U[2], (name, b), (tags[2], fl)])
                check(ctx, "%s set before the usage only once, flags %d" % (name, fl),
                      lambda: pre() + [U[0], (name, a), (tags[0], fl), U[1], (tags[1], fl), ("EndCollection", 0)][:5] + [(name, b)])
    return run


def t_ranges(subset):
    """Two fields, any of the four bounds restated before each of them."""
    names = ["LogicalMinimum", "LogicalMaximum", "PhysicalMinimum", "PhysicalMaximum"]

    def run(ctx):
        first = [n for n, s in zip(names, subset) if s]
        for k in range(16):
            second = [n for i, n in enumerate(names) if k >> i & 1]
            if len(first) + len(second) > 6:
                continue

            def mk():
                p = [("ReportSize", 8), ("ReportCount", 1)]
                p += [(n, sym("a" + n[:4] + n[-3:], -3, 3)) for n in first]
                p += [("Usage", uobj(0x10001)), ("Input", 2)]
                p += [(n, sym("b" + n[:4] + n[-3:], *S31)) for n in second]
                p += [("Usage", uobj(0x10002)), ("Input", 2), ("Usage", uobj(0x10009)), ("Input", 2)]
                return p
            check(ctx, "bounds %s then %s" % ([x[:4] + x[-3:] for x in first], [x[:4] + x[-3:] for x in second]), mk)
    return run


def t_usages(k):
    """k abstract usages and count n before one main item."""
    def run(ctx):
        for n in (1, 2, 3, 4):
            for fl in (2, 0, 3):
                for tail in (False, True):
                    def mk():
                        p = pre(n) + [("Usage", uobj(code("%d" % i))) for i in range(k)] + [("Input", fl)]
                        if tail:
                            p += [("ReportCount", 1), ("Usage", uobj(code("t"))), ("Input", fl)]
                        return p
                    check(ctx, "%d usages, count %d, flags %d" % (k, n, fl), mk)
    return run


def t_locals(kind):
    idx, mn, mx = kind + "Index", kind + "Minimum", kind + "Maximum"

    def run(ctx):
        for k in (1, 2, 3):
            for n in (1, 2, 3):
                def mk():
                    p = pre(n) + [us("0")] + [(idx, sym("d%d" % i, 0, 255)) for i in range(k)] + [("Input", 2)]
                    return p + [us("1"), (idx, sym("e", 0, 255)), ("Input", 2), us("2"), ("Input", 2)]
                check(ctx, "%d %s, count %d" % (k, idx, n), mk)

        def mk():
            a = sym("a", 0, 200)
            return pre(3) + [us("0"), (mn, a), (mx, add(a, 2)), ("Input", 2), us("1"), (idx, sym("e", 0, 255)), ("Input", 2)]
        check(ctx, "%s range" % kind, mk)

        def mk():
            a = sym("a", 0, 200)
            return pre(3) + [us("0"), (idx, sym("e", 0, 255)), (mn, a), (mx, add(a, 1)), ("Input", 2)]
        check(ctx, "%s and range" % kind, mk)
        for k in (1, 2):
            def mk():
                p = pre(k) + [us("0")] + [(idx, sym("d%d" % i, 256, U32)) for i in range(k)] + [("Input", 2)]
                return p + [us("1"), (idx, sym("e", 0, U32)), ("Input", 2), us("2"), ("Input", 2)]
            check(ctx, "%d wide %s" % (k, idx), mk)

        def mk():
            a = sym("a", 200, U32 - 2)
            return pre(3) + [us("0"), (mn, a), (mx, add(a, 2)), ("Input", 2), us("1"), (idx, sym("e", 0, U32)), ("Input", 2)]
        check(ctx, "wide %s range" % kind, mk)
        for pat in itertools.product((0, 1), repeat=3):
            def mk():
                p = pre(1)
                for i, x in enumerate(pat):
                    p += [("Usage", uobj(0x10001 + i))] + ([(idx, sym("d%d" % i, 0, 255))] if x else []) + [("Input", 2)]
                return p
            check(ctx, "%s on fields %s" % (idx, pat), mk)
    return run


def t_merge(ctx):
    """Single-count fields that may merge, with abstract usages."""
    for fl in ((2, 2, 2), (2, 6, 2), (3, 3, 3), (2, 2, 3), (0, 0, 0), (6, 6, 0x106)):
        for cnt in ((1, 1, 1), (1, 2, 1), (2, 1, 1), (1, 1, 3), (2, 2, 2)):
            for has in ((1, 1, 1), (1, 0, 1), (0, 0, 1), (1, 1, 0)):
                def mk():
                    p = pre()
                    for i in range(3):
                        p += [("ReportCount", cnt[i])]
                        if has[i]:
                            p.append(("Usage", uobj(code("%d" % i, PAGE[0]))))
                        p.append(("Input", fl[i]))
                    return p
                check(ctx, "fields with flags %s, counts %s, usages %s" % (fl, cnt, has), mk)


def t_pushpop(ctx):
    for n in list(DOM) + ["UsagePage", "ReportCount"]:
        lo, hi = {"UsagePage": (1, 65535), "ReportCount": (1, 3)}.get(n, DOM.get(n))
        U = ("Usage", 1) if n == "UsagePage" else ("Usage", uobj(0x10001))
        base = [x for x in pre() if x[0] != n] + ([("UsagePage", 1)] if n != "UsagePage" else [])
        v = (lambda k: sym(k, 0x100, 0xfeff) if n == "UsagePage" else sym(k, lo, hi))
        a, b, c = v("a"), v("b"), v("c")
        check(ctx, "Push, %s, Pop" % n, lambda: base + [(n, a), ("Push", 0), (n, b), U, ("Input", 2), ("Pop", 0), U, ("Input", 2)])
        check(ctx, "Push, Pop, %s" % n, lambda: base + [(n, a), U, ("Input", 2), ("Push", 0), ("Pop", 0), (n, b), U, ("Input", 2)])
        check(ctx, "nested Push, %s" % n, lambda: base + [(n, a), ("Push", 0), (n, b), ("Push", 0), (n, c), U, ("Input", 2), ("Pop", 0), U, ("Input", 2), ("Pop", 0), U, ("Input", 2)])
        if n != "UsagePage":
            check(ctx, "%s first set after Push" % n, lambda: base + ([("ReportCount", 1)] if n != "ReportCount" else []) + [("Push", 0), (n, b), U, ("Input", 2), ("Pop", 0)] + ([(n, a)] if n in ("ReportCount", "ReportID") else []) + [U, ("Input", 2)])
        check(ctx, "Push inside a collection, %s" % n, lambda: base + [(n, a), U, ("Collection", 1), ("Push", 0), (n, b), U, ("Input", 2), ("EndCollection", 0), ("Pop", 0), U, ("Input", 2)])


def t_stack(name, tier):
    """Every sequence of Push, Pop and two values of one global, read by a field
    after each of them or only after Pops or at the end."""
    al = ["push", "pop", 0, 1]
    u = ("Usage", 1) if name == "UsagePage" else ("Usage", 0x10001)
    head = [x for x in [("ReportSize", 8), ("ReportCount", 1), ("UsagePage", 1)] if x[0] != name]
    vals = {"UsagePage": (2, 3), "ReportCount": (1, 2)}.get(name, (5, 6))
    F = [u, ("Input", 2)]

    def run(ctx):
        k = 0
        for l in range(2, 7 if tier == "quick" else 8):
            for seq in itertools.product(al, repeat=l):
                d, top = 0, True
                for s in seq:
                    d += (s == "push") - (s == "pop")
                    if d < 0:
                        break
                if d < 0 or seq[0] == "pop" or "push" not in seq:
                    continue
                if not (0 in seq) or 1 in seq and seq.index(1) < seq.index(0):
                    continue        # up to renaming the two values
                for mode in ("all", "pop", "end") if l < 6 else ("all", "pop"):
                    st = list(head)
                    if name in ("UsagePage", "ReportCount"):
                        st.append((name, 1))
                    for s in seq:
                        st.append(("Push", 0) if s == "push" else ("Pop", 0) if s == "pop" else (name, vals[s]))
                        if mode == "all" or mode == "pop" and s == "pop":
                            st += F
                    k += 1
                    check(ctx, "%s saved and restored" % name, lambda: st + F)
        ctx.notes["streams"] = k
    return run


def t_pages(ctx):
    p1, p2 = sym("p1", 0x100, 0xfeff), sym("p2", 0x100, 0xfeff)
    s = lambda n: ("Usage", sym(n, 1, 60000))
    x = lambda n: ("Usage", uobj(code(n)))
    I2 = ("Input", 2)
    b = [("ReportSize", 8), ("ReportCount", 1), ("LogicalMaximum", 1)]
    cases = {
        "two pages": lambda: b + [("UsagePage", p1), s("a"), I2, ("UsagePage", p2), s("b"), I2],
        "page kept": lambda: b + [("UsagePage", p1), s("a"), I2, s("b"), I2],
        "extended between": lambda: b + [("UsagePage", p1), s("a"), I2, x("b"), I2, s("c"), I2],
        "mixed in one item": lambda: b + [("ReportCount", 3), ("UsagePage", p1), s("a"), x("b"), s("c"), I2],
        "mixed in one item, extended first": lambda: b + [("ReportCount", 2), ("UsagePage", p1), x("b"), s("c"), I2],
        "two extended": lambda: b + [("ReportCount", 2), x("a"), x("b"), I2, x("c"), I2],
        "page over a collection": lambda: b + [("UsagePage", p1), s("a"), ("Collection", 1), s("b"), I2, ("EndCollection", 0), s("c"), I2],
        "page changes in a collection": lambda: b + [("UsagePage", p1), s("a"), ("Collection", 1), ("UsagePage", p2), s("b"), I2, ("EndCollection", 0), s("c"), I2],
        "page unused": lambda: b + [("UsagePage", p1), ("UsagePage", p2), s("b"), I2],
        "page before constant": lambda: b + [("UsagePage", p1), s("a"), I2, ("UsagePage", p2), ("Input", 3), s("b"), I2],
    }
    for n, mk in cases.items():
        check(ctx, n, mk)


def t_page_ranges(ctx):
    p1 = sym("p1", 0x100, 0xfeff)
    I2 = ("Input", 2)
    b = [("ReportSize", 8), ("ReportCount", 3), ("LogicalMaximum", 1)]
    a = sym("a", 1, 60000)
    e = code("e")
    R = lambda v, k: [("UsageMinimum", v), ("UsageMaximum", add(v, k))]
    X = lambda v, k: [("UsageMinimum", uobj(v)), ("UsageMaximum", uobj(add(v, k)))]
    cases = {
        "short range": lambda: b + [("UsagePage", p1)] + R(a, 2) + [I2],
        "extended range": lambda: b + X(e, 2) + [I2],
        "range then usage": lambda: b + [("UsagePage", p1)] + R(a, 1) + [("Usage", uobj(code("t"))), I2],
        "usage then range": lambda: b + [("UsagePage", p1), ("Usage", uobj(code("t")))] + R(a, 1) + [I2],
        "two ranges": lambda: b + X(e, 1) + X(code("f"), 1) + [I2],
        "range of one": lambda: b + X(e, 0) + [I2],
        "range on an array": lambda: b + X(e, 5) + [("Input", 0)],
        "range on two items": lambda: b + X(e, 2) + [I2, ("Usage", uobj(code("t"))), I2],
        "range on a collection": lambda: b + X(e, 2) + [("Collection", 2), ("Usage", uobj(code("t"))), I2, ("EndCollection", 0)],
    }
    for n, mk in cases.items():
        check(ctx, n, mk)


def t_collections(ctx):
    I2 = ("Input", 2)
    C = lambda n="k": ("Collection", sym(n, 7, U32))
    E = ("EndCollection", 0)
    cases = {
        "nested": lambda: pre() + [us("a"), C(), us("b"), I2, us("c"), C("l"), us("d"), I2, E, us("e"), I2, E],
        "fields on both sides": lambda: pre() + [us("a"), I2, us("b"), C(), us("c"), I2, E, us("d"), I2],
        "empty": lambda: pre() + [us("a"), C(), E, us("b"), C("l"), E],
        "without usage": lambda: pre() + [C(), us("c"), I2, E],
        "several usages": lambda: pre() + [us("a"), us("b"), C(), us("c"), I2, E],
        "global inside": lambda: pre() + [us("a"), C(), ("ReportSize", sym("s", 0, U32)), us("c"), I2, E, us("d"), I2],
        "global before end": lambda: pre() + [us("a"), C(), us("c"), I2, ("ReportSize", sym("s", 0, U32)), E, us("d"), I2],
        "designator on collection": lambda: pre() + [us("a"), ("DesignatorIndex", sym("d", 0, 255)), ("StringIndex", sym("t", 0, 255)), C(), us("c"), I2, E],
        "count before collection": lambda: pre() + [("ReportCount", 2), us("a"), C(), us("c"), us("d"), I2, E, ("ReportCount", 1), us("e"), I2],
        "unclosed": lambda: pre() + [us("a"), C(), us("c"), I2, us("d"), I2],
        "trailing globals": lambda: pre() + [us("a"), I2, ("ReportSize", sym("s", 0, U32)), ("ReportCount", 1)],
        "constants between": lambda: pre() + [us("a"), I2, ("Input", 3), us("b"), I2, ("Input", 3), ("Input", 3)],
        "reports": lambda: pre() + [us("a"), C(), ("ReportID", sym("r", 1, 255)), us("b"), I2, E, us("c"), C("l"), ("ReportID", sym("q", 1, 255)), us("d"), I2, E],
        "delimiter": lambda: pre() + [("Delimiter", 1), us("a"), us("b"), ("Delimiter", 0), I2, us("c"), I2],
        "delimiter set then field": lambda: pre() + [us("z"), I2, ("Delimiter", 1), us("a"), ("Delimiter", 0), I2],
    }
    for n, mk in cases.items():
        check(ctx, n, mk)


# -- complete enumeration of short streams -------------------------------------------------

A = {
    "sizes": ([("ReportSize", 8), ("ReportSize", 16), ("ReportCount", 1), ("ReportCount", 2), ("Usage", 0x10001), ("Usage", 0x10002), ("Input", 2), ("Output", 2)],
              [("UsagePage", 1), ("ReportSize", 8), ("ReportCount", 1)], [("Input", 2)], 4, 6),
    "ranges": ([("LogicalMinimum", 1), ("LogicalMaximum", 1), ("PhysicalMinimum", 1), ("PhysicalMinimum", 0), ("PhysicalMaximum", 1), ("PhysicalMaximum", 0), ("Input", 2)],
               [("UsagePage", 1), ("ReportSize", 8), ("ReportCount", 1)], [("Usage", 0x10001), ("Input", 2)], 5, 6),
    "push": ([("Push", 0), ("Pop", 0), ("ReportSize", 8), ("ReportSize", 4), ("LogicalMaximum", 1), ("UsagePage", 2), ("Usage", 1), ("Input", 2)],
             [("UsagePage", 1), ("ReportSize", 4), ("ReportCount", 1)], [("Usage", 1), ("Input", 2)], 4, 6),
    "pages": ([("UsagePage", 1), ("UsagePage", 9), ("Usage", 1), ("Usage", 2), ("Usage", 0x90002), ("Usage", 0x10001), ("ReportCount", 2), ("Input", 2), ("Collection", 1), ("EndCollection", 0)],
              [("UsagePage", 1), ("ReportSize", 8), ("ReportCount", 1)], [("Input", 2)], 4, 5),
    "locals": ([("DesignatorIndex", 0), ("DesignatorIndex", 1), ("DesignatorIndex", 2), ("StringIndex", 1), ("StringIndex", 2), ("Usage", 0x10001), ("Input", 2), ("ReportCount", 2)],
               [("UsagePage", 1), ("ReportSize", 8), ("ReportCount", 1)], [("Input", 2)], 4, 6),
    "flags": ([("Input", 2), ("Input", 3), ("Input", 0), ("Input", 6), ("Feature", 2), ("ReportCount", 1), ("ReportCount", 2), ("Usage", 0x10001), ("Usage", 0x10002)],
              [("UsagePage", 1), ("ReportSize", 8), ("ReportCount", 1)], [("Usage", 0x10003), ("Input", 2)], 4, 5),
    "minmax": ([("UsageMinimum", 1), ("UsageMaximum", 3), ("UsageMinimum", 0x10002), ("UsageMaximum", 0x10002), ("Usage", 0x10004), ("Usage", 0x10001), ("DesignatorMinimum", 1), ("DesignatorMaximum", 3), ("Input", 2), ("Collection", 2)],
               [("UsagePage", 1), ("ReportSize", 8), ("ReportCount", 3)], [("Usage", 0x10005), ("Input", 2)], 4, 5),
    "wrap": ([("Usage", 0x1fffe), ("Usage", 0x1ffff), ("Usage", 0x20000), ("Usage", 0x20001), ("Usage", 0xffff), ("Usage", 0x10000), ("UsagePage", 1), ("Input", 2), ("Collection", 0)],
             [("UsagePage", 1), ("ReportSize", 8), ("ReportCount", 3)], [("Input", 2)], 4, 5),
    "units": ([("Unit", 0x11), ("Unit", 0), ("UnitExponent", 1), ("UnitExponent", 0), ("ReportID", 1), ("ReportID", 2), ("Usage", 0x10001), ("Input", 2)],
              [("UsagePage", 1), ("ReportSize", 8), ("ReportCount", 1)], [("Usage", 0x10002), ("Input", 2)], 4, 5),
}


def large():
    """name -> stream: far more of everything than a descriptor usually has."""
    H = [("UsagePage", 1), ("LogicalMinimum", 0), ("LogicalMaximum", 1), ("ReportSize", 1), ("ReportCount", 1)]
    U = lambda c: ("Usage", c)
    I2 = ("Input", 2)
    C = lambda k=2: ("Collection", k)
    E = ("EndCollection", 0)
    n = 300
    whole = lambda x: H + [U(0x10002), C(1)] + x + [E]
    yield "usages in sequence", whole([U(0x90001 + i) for i in range(n)] + [("ReportCount", n), I2])
    yield "usages with gaps", whole([U(0x90001 + 2 * i) for i in range(n)] + [("ReportCount", n), I2])
    yield "usages on turning pages", whole([U((9 + i % 2) << 16 | i + 1) for i in range(n)] + [("ReportCount", n), I2])
    yield "usages over a page end", whole([U(0x9ff00 + i) for i in range(n)] + [("ReportCount", n), I2])
    yield "usages backwards", whole([U(0x90001 + n - i) for i in range(n)] + [("ReportCount", n), I2])
    yield "fields in sequence", whole([x for i in range(n) for x in (U(0x90001 + i), I2)])
    yield "fields with gaps", whole([x for i in range(n) for x in (U(0x90001 + 3 * i), I2)])
    yield "fields with a designator each", whole([x for i in range(n) for x in (U(0x90001 + i), ("DesignatorIndex", i + 1), I2)])
    yield "fields with a string each", whole([x for i in range(n) for x in (U(0x90001 + i), ("StringIndex", n - i), I2)])
    yield "fields of turning sizes", whole([x for i in range(n) for x in (("ReportSize", 1 + i % 3), U(0x90001 + i), I2)])
    yield "fields of turning directions", whole([x for i in range(n) for x in (U(0x90001 + i), (("Input", "Output", "Feature")[i % 3], 2))])
    yield "constants", whole([x for i in range(n) for x in (("Input", 3), U(0x90001 + i), I2)])
    yield "counts", whole([x for i in range(20) for x in (("ReportCount", i + 1), U(0x90001 + i), I2)])
    yield "count of many", whole([("ReportCount", 70000), ("Input", 3), ("ReportCount", 300), U(0x90001), I2])
    yield "designators and strings", whole([U(0x90001 + i) for i in range(n)] + [("DesignatorIndex", i + 1) for i in range(n)] + [("StringIndex", 2 * i) for i in range(n)] + [("ReportCount", n), I2])
    d = 60
    yield "deep collections", whole([x for i in range(d) for x in (U(0x10003 + i), C(i % 7), U(0x90001 + i), I2)] + [E] * d + [U(0x90100), I2])
    yield "sibling collections", whole([x for i in range(100) for x in (U(0x10003 + i), C(), U(0x90001 + i), I2, E)])
    yield "empty collections", whole([x for i in range(100) for x in (U(0x10003 + i), C(), E)])
    yield "applications", H + [x for i in range(100) for x in (U(0x10002), C(1), U(0x90001 + i), I2, E)]
    yield "reports", whole([x for i in range(1, 256) for x in (("ReportID", i), U(0x90001 + i), I2, U(0x10030), I2)])
    yield "reports in turn", whole([x for i in range(200) for x in (("ReportID", 1 + i % 3), U(0x90001 + i), I2)])
    p = 40
    st = []
    for i in range(p):
        st += [("Push", 0), ("LogicalMaximum", i + 2), ("ReportSize", i + 2), U(0x90001 + i), I2]
    for i in range(p):
        st += [("Pop", 0), U(0x90101 + i), I2]
    yield "deep stack", whole(st)
    yield "many stacks", whole([x for i in range(80) for x in (("Push", 0), ("LogicalMaximum", i % 9), U(0x90001 + i), I2, ("Pop", 0), U(0x90101 + i), I2)])
    yield "ranges", whole([x for i in range(60) for x in (("LogicalMinimum", -i), ("LogicalMaximum", i + 1), ("PhysicalMinimum", -i if i % 3 else -7), ("PhysicalMaximum", i + 1 if i % 2 else 9),
                                                          U(0x90001 + i), I2)])
    yield "usage ranges", whole([x for i in range(60) for x in (("UsageMinimum", 0x90001 + 10 * i), ("UsageMaximum", 0x90004 + 10 * i), ("ReportCount", 4), I2)])
    yield "usage ranges in one item", whole([x for i in range(60) for x in (("UsageMinimum", 0x90001 + 10 * i), ("UsageMaximum", 0x90004 + 10 * i))] + [("ReportCount", 240), I2])
    yield "a long usage range", whole([("UsageMinimum", 0x90001), ("UsageMaximum", 0x90000 + n), ("ReportCount", n), I2])
    yield "a long array", whole([("LogicalMaximum", n - 1), ("ReportSize", 9)] + [U(0x90001 + i) for i in range(n)] + [("ReportCount", 3), ("Input", 0)])


def t_large(ctx):
    for n, st in large():
        check(ctx, "many %s" % n, lambda: [(k, uobj(v)) if k == "Usage" and v > 0xffff else (k, v) for k, v in st])
        check(ctx, "many %s, plain codes" % n, lambda: list(st), tail=True)


def t_tail(ctx):
    """Items after the last main item are not lost on close: their effect is the same
    for a field that would follow."""
    F = lambda: [("Usage", uobj(0x10001)), ("Input", 2)]
    wrap = lambda *x: [("Usage", uobj(0x10009)), ("Collection", 1)] + list(x) + [("EndCollection", 0)]
    heads = {"nothing": lambda: [], "globals only": pre, "a field": lambda: pre() + F(), "two fields": lambda: pre() + F() + [("Usage", uobj(0x10002)), ("Input", 2)],
             "a collection": lambda: pre() + wrap(*F()), "a count of two": lambda: pre(2) + F() + wrap(*F())}
    loc = [("StringIndex", sym("ts", 1, 255)), ("DesignatorIndex", sym("td", 1, 255)), ("Usage", uobj(0x10003))]
    tails = [[(n, sym("t", *DOM[n]))] for n in DOM] + [[(n, sym("t", *APART[n])), (n2, sym("q", *APART[n2]))] for n in APART for n2 in APART if n != n2]
    tails += [[x] for x in loc] + [[x, y] for x in loc for y in loc if x is not y] + [[("Usage", uobj(0x10003 + i)) for i in range(3)]]
    tails += [[("Unit", sym("t", *APART["Unit"]))] + loc, loc + [("ReportSize", sym("t", *APART["ReportSize"]))], [("UsagePage", sym("t", 256, 65535)), ("Usage", sym("q", 1, 65535))]]
    for h in heads.values():
        for t in tails:
            check(ctx, "pending at the end: %s" % ", ".join(n for n, _ in t), lambda: h() + t, tail=True)


def t_enum(name, first, tier):
    al, head, tail, q, th = A[name]
    n = q if tier == "quick" else th

    def run(ctx):
        count = 0
        for l in range(0, n):
            for rest in itertools.product(al, repeat=l):
                seq = head + [al[first]] + list(rest) + tail
                count += 1
                check(ctx, "stream " + name, lambda: list(seq))
        ctx.notes["streams"] = count
        ctx.notes["length"] = n
    return run


def tasks(tier):
    for n in DOM:
        yield "global.%s" % n, t_global(n)
    for s in itertools.product((0, 1), repeat=4):
        yield "ranges.%d%d%d%d" % s, t_ranges(s)
    for k in range(0, 5 if tier == "quick" else 6):
        yield "usages.%d" % k, t_usages(k)
    yield "designators", t_locals("Designator")
    yield "strings", t_locals("String")
    yield "merge", t_merge
    yield "tail", t_tail
    yield "large", t_large
    yield "pushpop", t_pushpop
    for n in ("LogicalMaximum", "UsagePage", "ReportCount"):
        yield "stack." + n, t_stack(n, tier)
    yield "pages", t_pages
    yield "pageranges", t_page_ranges
    yield "collections", t_collections
    for n, x in A.items():
        for i in range(len(x[0])):
            yield "enum.%s.%d" % (n, i), t_enum(n, i, tier)
