"""C01: item encoding loses nothing."""
from .codec import *

RULE = ("For every item class of the HID table: (a) over the whole legal abstract range, Item.parse applied to the "
        "abstract bytes of Item.bytes() returns an instance of the same class, with the table's kind and tag and a "
        "value number equal to the original; (b) over the integers outside the range , building and "
        "encoding raises on every partition.")
BOUNDS = "legal ranges complete (quick: reserved flag bits abstract with 13 patterns of the defined ones); values outside up to 2^128 in magnitude (quick: 2^40 for most items)"
MIN_OBLIGATIONS = {"quick": 500}


def roundtrip(name, label, v):
    def run(ctx):
        kind, tag, signed = spec.ITEMS[name]
        parse = get(ITEM + "Item.parse")
        cls = get(ITEM + name)
        wh = where_of(get(ITEM + "Item"), "parse")

        def fn():
            i = build(name, v)
            b = m(i, "bytes")
            return i, b, call(parse, b)

        def judge(k, r):
            inp = "%s(%s)" % (name, show(v))
            if k == "exc":
                ctx.bad("legal value encodes and parses", "%s raises %s" % (inp, lib.exc_str(r)), r.where, inp)
                return
            i, b, p = r
            if not ctx.req(isinstance(p, Inst) and p.cls is cls, "same class", lambda: "%s parses back as %s" % (inp, show(p)), wh, inp):
                return
            ctx.req(same(int_of(attr(p, "kind")), kind) and same(int_of(attr(p, "tag")), tag), "same type and tag",
                    lambda: "%s: kind/tag %s/%s" % (inp, show(attr(p, "kind")), show(attr(p, "tag"))), wh, inp)
            ctx.req(same(int_of(attr(p, "value")), v), "same value",
                    lambda: "%s parses back with value %s" % (inp, show(int_of(attr(p, "value")))), wh, inp)
            ctx.req(same(int_of(attr(i, "value")), v), "item keeps its value",
                    lambda: "%s holds %s" % (inp, show(attr(i, "value"))), where_of(cls, "__init__"), inp)
        ctx.explore("%s %s" % (name, label), fn, judge)
    return run


def refuse(name, lo, hi):
    def run(ctx):
        v = sym("v", lo, hi)
        wh = where_of(get(ITEM + name), "bytes")
        named = get("hrdc.util:NamedConstant")

        def mk(arg):
            def fn():
                i = call(get(ITEM + name), arg())
                return m(i, "bytes")
            return fn

        def judge(k, r):
            inp = "%s(%s)" % (name, show(v))
            ctx.req(k == "exc", "out-of-range value refused", lambda: "%s encodes as %s" % (inp, show(items(r))), wh, inp)
        ctx.explore("%s out of range" % name, mk(lambda: v), judge)
        if name not in spec.NO_VALUE:
            ctx.explore("%s named constant out of range" % name, mk(lambda: call(named, "x", v)), judge)
    return run


def tasks(tier):
    for name in spec.ITEMS:
        for label, v in ranges(name, tier):
            yield "%s.%s" % (name, label), roundtrip(name, label, v)
        lo, hi = legal(name)
        big = 128 if tier != "quick" or name in ("ReportSize", "LogicalMinimum") else 40
        yield "%s.below" % name, refuse(name, -(1 << big), lo - 1)
        yield "%s.above" % name, refuse(name, hi + 1, 1 << big)
