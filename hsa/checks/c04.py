"""C04: parsing a binary descriptor accounts for every byte."""
import itertools
from .codec import *
from ..lib import mkbytes, B, Infeasible, add, mul

RULE = ("Binary parser analysed on abstract byte strings: every prefix byte with an abstract payload of its size, after an "
        "arbitrary current usage page and before further items; compositions of items; every truncation; every unassigned "
        "prefix.  The items reaching the output have the class, order and value number their bytes say, followed by one close; "
        "truncated or unknown items raise, and only the complete items before them are delivered.")
BOUNDS = ("payload bytes complete; up to 4 items per analysed string (the parser's only state between items, the current usage page, "
          "is abstract)")
MIN_OBLIGATIONS = {"quick": 3000}
SIZES = [0, 1, 2, 4]
WH = "hrdc/stream/parser/base.py"


def raw(kind, tag, code, v):
    """The bytes of an item of this size code and value."""
    return [(tag << 4) | (kind << 2) | code] + (le_bytes(v, SIZES[code]) if code else [])


def dom(signed, code):
    n = SIZES[code]
    if not n:
        return 0, 0
    return (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)


def val(name, lo, hi):
    return sym(name, lo, hi) if lo != hi else lo


def run_blob(unit_list, text=False):
    f = B.mkfile("in", "r" if text else "rb", mkbytes(unit_list))
    s = lib.sink()
    p = call(get("hrdc.stream.parser:Binary"), f, s)
    err = None
    try:
        m(p, "read")
    except lib.PyExc as e:
        err = e
    return s, err


def check_items(ctx, s, want, rule, inp):
    """want: list of (class name, value)"""
    got = attr(s, "items").v
    if not ctx.req(len(got) == len(want), rule + ": item count",
                   lambda: "%s: %d items delivered, expected %d" % (inp, len(got), len(want)), WH, inp):
        return
    for g, (n, v) in zip(got, want):
        kind, tag, _ = spec.ITEMS[n]
        ctx.req(isinstance(g, Inst) and g.cls is get(ITEM + n) and same(int_of(attr(g, "kind")), kind) and same(int_of(attr(g, "tag")), tag),
                rule + ": item kind", lambda: "%s: delivered %s, expected %s" % (inp, show(g), n), WH, inp)
        ctx.req(same(int_of(attr(g, "value")), v), rule + ": value", lambda: "%s: delivered %s, expected %s(%s)" % (inp, show(g), n, show(v)), WH, inp)


def closed_once(ctx, s, inp):
    ctx.req(attr(s, "closed") == 1 and attr(s, "late") == 0, "output closed once, at the end",
            lambda: "%s: closed %s times, %s items after close" % (inp, show(attr(s, "closed")), show(attr(s, "late"))), WH, inp)


def t_item(name):
    kind, tag, signed = spec.ITEMS[name]

    def run(ctx):
        for code in range(4):
            lo, hi = dom(signed, code)
            if name in ("EndCollection", "Push", "Pop"):
                lo, hi = 0, 0
            for paged in (False, True):
                for text in ((False, True) if code == 1 else (False,)):
                    # flag items partition over the flags: all of them without page
                    v = val("v", lo, min(hi, 3) if paged and name in spec.FLAG_ITEMS else hi)
                    pg = sym("page", 0, 65535)

                    def fn():
                        u = []
                        want = []
                        if paged:
                            u += raw(1, 0, 2, pg)
                            want.append(("UsagePage", pg))
                        u += raw(kind, tag, code, v)
                        want.append((name, v))
                        u += raw(0, 0xc, 0, 0)
                        want.append(("EndCollection", 0))
                        return run_blob(u, text), want

                    def judge(k, r):
                        inp = "%s size code %d value %s%s" % (name, code, show(v), " after page %s" % show(pg) if paged else "")
                        if k == "exc":
                            ctx.bad("complete items parse", "%s: %s" % (inp, lib.exc_str(r)), r.where, inp)
                            return
                        (s, err), want = r
                        if err is not None:
                            ctx.bad("complete items parse", "%s: %s" % (inp, lib.exc_str(err)), err.where, inp)
                            return
                        check_items(ctx, s, want, "every item delivered", inp)
                        closed_once(ctx, s, inp)
                    ctx.explore("%s.%d" % (name, code), fn, judge)

            # truncation: every shorter length
            for short in range(SIZES[code]):
                v = val("v", *dom(signed, code)) if name not in ("EndCollection", "Push", "Pop") else 0
                r0 = sym("rs", 0, 255)

                def fn():
                    u = raw(1, 7, 1, r0) + raw(kind, tag, code, v)[:1 + short]
                    return run_blob(u)

                def judge(k, r):
                    inp = "%s size code %d cut to %d payload bytes" % (name, code, short)
                    if k == "exc":
                        ctx.bad("complete items parse", "%s: %s" % (inp, lib.exc_str(r)), r.where, inp)
                        return
                    s, err = r
                    ctx.req(err is not None, "truncated item raises", lambda: "%s: delivered %s" % (inp, show(attr(s, "items"))), WH, inp)
                    check_items(ctx, s, [("ReportSize", r0)], "items before a truncated one", inp)
                ctx.explore("%s.%d truncated" % (name, code), fn, judge)
    return run


def t_unknown(ctx):
    known = {(k, t) for k, t, _ in spec.ITEMS.values()}
    for prefix in range(256):
        kind, tag, code = (prefix >> 2) & 3, prefix >> 4, prefix & 3
        if (kind, tag) in known:
            continue
        v = val("v", *dom(False, code))
        r0 = sym("rs", 0, 255)

        def fn():
            return run_blob(raw(1, 7, 1, r0) + raw(kind, tag, code, v) + raw(0, 0xc, 0, 0))

        def judge(k, r):
            inp = "prefix 0x%02x" % prefix
            if k == "exc":
                ctx.bad("complete items parse", "%s: %s" % (inp, lib.exc_str(r)), r.where, inp)
                return
            s, err = r
            ctx.req(err is not None, "unknown prefix raises", lambda: "%s: delivered %s" % (inp, show(attr(s, "items"))), WH, inp)
            check_items(ctx, s, [("ReportSize", r0)], "items before an unknown one", inp)
        ctx.explore("prefix %02x" % prefix, fn, judge)


SEQ = [("UsagePage", 1, (0, 255)), ("UsagePage", 2, (0, 65535)), ("Usage", 1, (0, 255)), ("Usage", 2, (0, 65535)), ("Usage", 3, (0, U32)),
       ("UsageMinimum", 2, (0, 65535)), ("UsageMaximum", 3, (0, U32)), ("Input", 1, (0, 3)), ("EndCollection", 0, (0, 0)),
       ("LogicalMinimum", 2, (-32768, 32767)), ("Push", 0, (0, 0)), ("Pop", 1, (0, 0)), ("ReportCount", 0, (0, 0))]


def t_seq(first, n, tier):
    def run(ctx):
        for rest in itertools.product(range(len(SEQ)), repeat=n - 1):
            seq = [SEQ[first]] + [SEQ[i] for i in rest]

            def fn():
                u, want = [], []
                for i, (nm, code, (lo, hi)) in enumerate(seq):
                    kind, tag, _ = spec.ITEMS[nm]
                    v = val("v%d" % i, lo, hi)
                    u += raw(kind, tag, code, v)
                    want.append((nm, v))
                return run_blob(u), want

            def judge(k, r):
                inp = " ".join("%s/%d" % (a, b) for a, b, _ in seq)
                if k == "exc" or r[0][1] is not None:
                    e = r if k == "exc" else r[0][1]
                    ctx.bad("complete items parse", "%s: %s" % (inp, lib.exc_str(e)), e.where, inp)
                    return
                (s, err), want = r
                check_items(ctx, s, want, "every item of a sequence delivered", inp)
                closed_once(ctx, s, inp)
            ctx.explore(" ".join(s[0] for s in seq), fn, judge, limit=50000)
    return run


def t_empty(ctx):
    def judge(k, r):
        if k == "exc" or r[1] is not None:
            ctx.bad("empty input parses", lib.exc_str(r if k == "exc" else r[1]), WH)
            return
        check_items(ctx, r[0], [], "nothing from nothing", "empty input")
        closed_once(ctx, r[0], "empty input")
    ctx.explore("empty", lambda: run_blob([]), judge)
    # a long run of items
    n = 40

    def fn():
        u, want = [], []
        for i in range(n):
            v = sym("v%d" % i, 0, 255)
            u += raw(1, 9, 1, v)
            want.append(("ReportCount", v))
        return run_blob(u), want

    def judge(k, r):
        if k == "exc" or r[0][1] is not None:
            ctx.bad("complete items parse", lib.exc_str(r if k == "exc" else r[0][1]), WH)
            return
        check_items(ctx, r[0][0], r[1], "every item of a long run delivered", "%d items" % n)
        closed_once(ctx, r[0][0], "%d items" % n)
    ctx.explore("long", fn, judge)


def tasks(tier):
    for n in spec.ITEMS:
        yield "item.%s" % n, t_item(n)
    yield "unknown", t_unknown
    yield "ends", t_empty
    for i, s in enumerate(SEQ):
        yield "sequence.%s%d" % (s[0], s[1]), t_seq(i, 2 if tier == "quick" else 3, tier)
