"""C02: encoded items are well-formed HID short items of minimal size."""
from .codec import *

RULE = ("For every item class of the HID table and the whole abstract value range (partitioned at the size-class "
        "boundaries of the specification), the abstract result of Item.bytes() is: prefix byte == tag<<4 | kind<<2 | "
        "size code of the payload length; payload length == the least of 1, 2, 4 that holds the value (0 only for "
        "EndCollection); payload byte i is value-number-equal to byte i of the value.")
BOUNDS = "none on values: intervals cover 0..2^32-1, respectively -2^31..2^31-1; reserved flag bits included (quick: with 13 patterns of the defined ones)"
MIN_OBLIGATIONS = {"quick": 500}


def task(name, label, v):
    def run(ctx):
        kind, tag, signed = spec.ITEMS[name]

        def fn():
            n = size_class(name, v)
            i = build(name, v)
            return n, i, m(i, "bytes")

        def judge(k, r):
            inp = "%s(%s)" % (name, show(v))
            if k == "exc":
                ctx.bad("legal value accepted", "%s raises %s" % (inp, lib.exc_str(r)), r.where, inp)
                return
            n, i, b = r
            if not isinstance(b, (bytes, ABytes)):
                ctx.bad("bytes() returns bytes", "%s gives %s" % (inp, show(b)), None, inp)
                return
            u = items(b)
            where = bytes_where
            if not ctx.req(len(u) >= 1, "prefix present", "%s encodes to nothing" % inp, where, inp):
                return
            ctx.req(len(u) - 1 == n, "payload size is minimal and sufficient",
                    lambda: "%s encodes %d payload bytes instead of %d" % (inp, len(u) - 1, n), where, inp)
            code = {0: 0, 1: 1, 2: 2, 4: 3}.get(len(u) - 1)
            ctx.req(code is not None and same(u[0], tag << 4 | kind << 2 | code), "prefix = tag, kind, size code",
                    lambda: "%s has prefix %s for %d payload bytes" % (inp, show(u[0]), len(u) - 1), where, inp)
            want = le_bytes(v, len(u) - 1)
            for j, (x, y) in enumerate(zip(u[1:], want)):
                ctx.req(same(x, y), "payload is the little-endian value",
                        lambda: "%s: payload byte %d is %s, not byte %d of the value" % (inp, j, show(x), j), where, inp)
        bytes_where = where_of(get(ITEM + name), "bytes")
        ctx.explore("%s %s" % (name, label), fn, judge)
    return run


def tasks(tier):
    for name in spec.ITEMS:
        for label, v in ranges(name, tier):
            yield "%s.%s" % (name, label), task(name, label, v)
