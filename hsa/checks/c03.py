"""C03: the vocabulary carries the HID 1.11 codes."""
from .codec import *

RULE = ("Constant tables of the abstractly loaded package against the HID 1.11 tables: class codes, registry lookup for "
        "an abstract (kind, tag), flags, collection kinds, units, aliases exported by hrdc.descriptor; signedness "
        "decided from what encoding/parsing do with a negative payload.")
BOUNDS = "unit exponents: abstract over -8..7 and outside to +-2^16"
MIN_OBLIGATIONS = {"quick": 250}


def const(ctx, path, want, name=None):
    try:
        v = get(path)
    except lib.Anchor:
        ctx.bad("constant exists", "%s is gone" % path, path)
        return
    try:
        n = int_of(v)
    except lib.PyExc as e:
        ctx.bad("constant has its code", "%s is not a number: %s" % (path, lib.exc_str(e)), path)
        return
    ctx.req(same(n, want), "constant has its code", lambda: "%s is %s, the specification says %#x" % (path, show(n), want), path)
    if name:
        s = I.str_(v)
        ctx.req(s == name, "constant has its name", lambda: "%s prints as %s" % (path, show(s)), path)


def t_classes(ctx):
    itemclass = get(ITEM + "Item.itemclass")
    for name, (kind, tag, signed) in spec.ITEMS.items():
        cls = get(ITEM + name)
        ctx.req(same(int_of(attr(cls, "kind")), kind), "class kind", "%s.kind" % name, name)
        ctx.req(same(int_of(attr(cls, "tag")), tag), "class tag", "%s.tag" % name, name)
        r = call(itemclass, kind, tag)
        ctx.req(r is cls, "lookup by code", lambda: "itemclass(%d, %#x) is %s, not %s" % (kind, tag, show(r), name), name)
        base = {0: "MainItem", 1: "GlobalItem", 2: "LocalItem"}[kind]
        const(ctx, ITEM + base + "." + name, tag, name)
        r = call(itemclass, get(ITEM + base + ".kind"), get(ITEM + base + "." + name))
        ctx.req(r is cls, "lookup by named code", lambda: "itemclass(%s) is %s" % (name, show(r)), name)
    for n, k in (("Main", 0), ("Global", 1), ("Local", 2)):
        const(ctx, ITEM + "Item." + n, k, n)


def t_lookup(ctx):
    itemclass = get(ITEM + "Item.itemclass")
    kind, tag = sym("kind", 0, 3), sym("tag", 0, 15)

    def fn():
        return w.concretize(kind), w.concretize(tag), call(itemclass, kind, tag)

    def judge(k, r):
        kk, tt = w.concretize(kind), w.concretize(tag)
        n = spec.BY_CODE.get((kk, tt))
        if k == "exc":
            ctx.req(n is None, "legal code registered", lambda: "itemclass(%d, %#x) raises %s" % (kk, tt, lib.exc_str(r)), r.where)
        else:
            c = r[2]
            ctx.req(n is not None and c is get(ITEM + n), "lookup gives that item or an error",
                    lambda: "itemclass(%d, %#x) gives %s" % (kk, tt, show(c)), "hrdc/stream/item.py Item.itemclass")
    ctx.explore("itemclass", fn, judge)


def t_signed(ctx):
    parse = get(ITEM + "Item.parse")
    for name, (kind, tag, signed) in spec.ITEMS.items():
        if name in spec.NO_VALUE:
            continue
        for n, code in ((1, 1), (2, 2), (4, 3)):
            u = [sym("b%d" % i, 0, 255) for i in range(n)]
            hi = u[-1]

            def fn():
                s = I.truth(I.compare("__ge__", hi, 128))
                return s, call(parse, mkb([tag << 4 | kind << 2 | code] + u))

            def judge(k, r):
                if k == "exc":
                    ctx.bad("payload accepted", "%s with %d bytes: %s" % (name, n, lib.exc_str(r)), r.where)
                    return
                s, p = r
                v = 0
                for i, x in enumerate(u):
                    v = lib.add(v, lib.mul(x, 1 << (8 * i)))
                if signed and s:
                    v = lib.sub(v, 1 << (8 * n))
                got = int_of(attr(p, "value"))
                ctx.req(same(got, v), "signedness", lambda: "%s payload %s parses as %s" % (name, show(u), show(got)), name)
            ctx.explore("signedness of %s" % name, fn, judge)


def mkb(u):
    return lib.mkbytes(u)


def t_flags(ctx):
    for n, v in spec.FLAGS.items():
        for holder in (ITEM + "DataItem.", ITEM + "Input.", "hrdc.descriptor:Value."):
            const(ctx, holder + n, v, n)
    for n in ("Input", "Output", "Feature"):
        const(ctx, "hrdc.descriptor:Value." + n, spec.ITEMS[n][1], n)
    for n, v in spec.COLLECTIONS.items():
        const(ctx, ITEM + "Collection." + n, v, n)
        const(ctx, "hrdc.descriptor:Collection." + n, v, n)


def t_units(ctx):
    for n, v in spec.UNITS.items():
        const(ctx, ITEM + "Unit." + n, v, n)
        const(ctx, "hrdc.descriptor:Unit." + n, v, n)
    for n, pos in spec.NIBBLES.items():
        f = get(ITEM + "Unit." + n)
        x = sym("x", -(1 << 16), 1 << 16)

        def fn():
            inside = I.truth(I.compare("__le__", -8, x)) and I.truth(I.compare("__le__", x, 7))
            if inside:
                w.concretize(x)
            return inside, call(f, x)

        def judge(k, r):
            lo, hi = w.store.interval(w.store.poly(x))
            if k == "exc":
                ctx.req(hi < -8 or lo > 7, "exponent accepted", lambda: "Unit.%s(%s): %s" % (n, show(x), lib.exc_str(r)), r.where)
                return
            c = w.concretize(x)
            if not ctx.req(r[0], "exponent outside -8..7 refused", lambda: "Unit.%s(%s) gives %s" % (n, show(x), show(r[1])), n):
                return
            ctx.req(same(int_of(r[1]), (c & 15) << (4 * pos)), "unit nibble", lambda: "Unit.%s(%d) is %s" % (n, c, show(r[1])), n)
        ctx.explore("Unit." + n, fn, judge)


def tasks(tier):
    yield "classes", t_classes
    yield "lookup", t_lookup
    yield "signed", t_signed
    yield "flags", t_flags
    yield "units", t_units
