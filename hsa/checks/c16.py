"""C16: field defaults and validation."""
import itertools
from .codec import *
from ..lib import add, sub, lst

RULE = ("Value(...) analysed for every combination of given / None / omitted attributes with abstract values; on each "
        "partition the attributes of the object, or the refusal, equal those of the documented defaulting rules "
        "(value numbers compared).")
BOUNDS = "sizes 0..2^32, bounds and all other integers unbounded; named arrays of 1..3 usages and abstract ranges"
MIN_OBLIGATIONS = {"quick": 3000}
V = "hrdc.descriptor:Value"
WH = "hrdc/descriptor/descriptor.py Value.__init__"
OMIT = "omit"


def none(x):
    return x is None


def eqn(a, b):
    if a is None or b is None:
        return a is None and b is None
    return same(int_of(a), int_of(b))


def run_combo(ctx, label, given, array=None, positional=False):
    """given: attribute -> abstract value / None; omitted attributes absent."""
    cls = get(V)
    way, size = get(V + ".Input"), sym("size", 0, 1 << 32)
    usage = given.get("usage")
    flags = given.get("flags", OMIT)

    def fn():
        kw = {k: v for k, v in given.items() if k != "usage"}
        arr = None
        if array is not None:
            arr = array()
            kw["namedArray"] = arr[0]
        if positional:
            order = ["flags", "logicalMin", "logicalMax", "physicalMin", "physicalMax", "namedArray", "unit",
                     "unitExponent", "designator", "string", "count", "alignment"]
            o = I.call(cls, [way, usage, size] + [kw[k] for k in order], {})
        else:
            o = I.call(cls, [way, usage, size], kw)
        return o, arr

    lmin = given.get("logicalMin", 1)
    lmax = given.get("logicalMax", None)
    const = False

    def judge(k, r):
        inp = "Value(%s%s)" % (", ".join("%s=%s" % (a, show(b)) for a, b in given.items()), ", namedArray" if array else "")
        # the constant flag on this partition
        if flags is OMIT:
            c = False
        else:
            bit = I.arith("&", int_of(flags), 1)
            z = lib.known_eq(bit, 0)
            c = None if z is None else not z
        reject = (lmin is None or lmax is None) and array is None
        if k == "exc":
            if lib.exc_name(r) == "ValueError":
                ctx.req(reject and c is not True, "accepted unless bounds are missing",
                        lambda: "%s refused: %s" % (inp, lib.exc_str(r)), r.where, inp)
            else:
                ctx.bad("accepted unless bounds are missing", "%s raises %s" % (inp, lib.exc_str(r)), r.where, inp)
            return
        o, arr = r
        if reject:
            if not ctx.req(c is True, "missing bounds refused", "%s accepted" % inp, WH, inp):
                return

        def at(n, want, rule):
            got = attr(o, n)
            ctx.req(eqn(got, want), rule, lambda: "%s: %s is %s, expected %s" % (inp, n, show(got), show(want)), WH, inp)
        at("size", size, "size kept")
        ctx.req(attr(o, "way") is way, "direction kept", inp, WH, inp)
        u = attr(o, "usage")
        ctx.req(u is usage or (u is not None and usage is not None and eqn(u, usage)), "usage kept", inp, WH, inp)
        if given.get("alignment") is None:
            # min(8, size) on this partition
            al = attr(o, "alignment")
            lo, hi = w.store.interval(w.store.poly(size))
            if hi <= 8:
                ctx.req(eqn(al, size), "default alignment is the size below 8", lambda: "%s: alignment %s for size %s" % (inp, show(al), show(size)), WH, inp)
            elif lo >= 8:
                ctx.req(eqn(al, 8), "default alignment is 8 from size 8", lambda: "%s: alignment %s for size %s" % (inp, show(al), show(size)), WH, inp)
            else:
                ctx.bad("default alignment depends on the size", "%s: alignment %s for any size %s" % (inp, show(al), show(size)), WH, inp)
        else:
            at("alignment", given["alignment"], "alignment kept")
        for n, d in (("unit", 0), ("unitExponent", 0), ("designator", 0), ("string", 0), ("count", 1)):
            at(n, given.get(n, d), "%s kept" % n)
        if arr is not None:
            at("logicalMin", lmin, "logical minimum kept")
            at("logicalMax", sub(add(lmin, arr[1]), 1), "logical maximum of a named array is minimum + length - 1")
            at("flags", 2 if usage is not None and usage != 0 else 0, "flags of a named array")
            ctx.req(attr(o, "namedArray") is arr[0], "named array kept", inp, WH, inp)
        else:
            at("logicalMin", lmin, "logical minimum kept")
            at("logicalMax", lmax, "logical maximum kept")
            at("flags", 2 if flags is OMIT else flags, "flags kept")
            ctx.req(attr(o, "namedArray") is None, "no named array", inp, WH, inp)
            pm, px = given.get("physicalMin"), given.get("physicalMax")
            zero = lambda x: True if x is None else lib.known_eq(int_of(x), 0)
            a, b = zero(pm), zero(px)
            gm, gx = attr(o, "physicalMin"), attr(o, "physicalMax")
            if a is True and b is True:
                ctx.req(eqn(gm, lmin) and eqn(gx, lmax), "physical bounds follow the logical ones",
                        lambda: "%s: physical %s..%s" % (inp, show(gm), show(gx)), WH, inp)
            elif a is False or b is False:
                ctx.req(eqn(gm, 0 if pm is None else pm) and eqn(gx, 0 if px is None else px), "given physical bounds kept, the other zero",
                        lambda: "%s: physical %s..%s" % (inp, show(gm), show(gx)), WH, inp)
            else:
                # not distinguished by the code: must satisfy both readings
                ctx.req(eqn(gm, lmin) and eqn(gx, lmax) and eqn(gm, 0 if pm is None else pm) and eqn(gx, 0 if px is None else px),
                        "physical bounds depend on being zero", lambda: "%s: physical %s..%s" % (inp, show(gm), show(gx)), WH, inp)
    ctx.explore(label, fn, judge)


def t_bounds(flagkind):
    def run(ctx):
        nc = get("hrdc.util:NamedConstant")
        F = {"omitted": OMIT, "int": sym("flags", 0, 511), "named": None}[flagkind]
        for lmin, lmax, pmin, pmax in itertools.product((OMIT, None, "v"), (OMIT, None, "v"), (OMIT, None, "v"), (OMIT, None, "v")):
            given = {}
            for n, x in (("logicalMin", lmin), ("logicalMax", lmax), ("physicalMin", pmin), ("physicalMax", pmax)):
                if x == "v":
                    given[n] = sym(n)
                elif x is None:
                    given[n] = None
            if flagkind == "int":
                given["flags"] = F
            elif flagkind == "named":
                given["flags"] = call(nc, "F", sym("flags", 0, 511))
            given["usage"] = sym("usage", 1, U32)
            run_combo(ctx, "bounds", given)
    return run


def t_rest(ctx):
    names = ["unit", "unitExponent", "designator", "string", "count", "alignment"]
    for sel in itertools.product((0, 1), repeat=len(names)):
        given = {n: sym(n) for n, s in zip(names, sel) if s}
        given["logicalMin"], given["logicalMax"] = sym("lmin"), sym("lmax")
        given["usage"] = None if sum(sel) % 2 else sym("usage", 1, U32)
        run_combo(ctx, "attributes", given)
    full = {n: sym(n) for n in names + ["logicalMin", "logicalMax", "physicalMin", "physicalMax"]}
    full["flags"] = sym("flags", 0, 511)
    full["namedArray"] = None
    full["usage"] = sym("usage", 1, U32)
    run_combo(ctx, "positional", full, positional=True)


def t_array(ctx):
    R = get("hrdc.usage:UsageRange")
    us = get("hrdc.usage:Usage")

    def mklist(n):
        return lambda: (lst(*[sym("u%d" % i, 0, U32) for i in range(n)]), n)

    def mkrange():
        a, n = sym("a", 0, 1 << 31), sym("n", 1, 1 << 16)
        return call(R, call(us, "x", a, register=False), call(us, "y", sub(add(a, n), 1), register=False)), n
    for usage in (None, 0, "int", "Usage"):
        for arr in [mklist(1), mklist(2), mklist(3), mklist(300), mkrange]:
            for lm in (OMIT, "v"):
                for fl in (OMIT, "v"):
                    given = {"usage": usage if not usage else sym("usage", 1, U32) if usage == "int" else call(us, "m.U", sym("usage", 1, U32), register=False)}
                    if lm == "v":
                        given["logicalMin"] = sym("lmin")
                    if fl == "v":
                        given["flags"] = sym("flags", 0, 511)
                    run_combo(ctx, "named array", given, array=arr)


def t_sub(ctx):
    way = get(V + ".Output")
    b, s = sym("b", 0, 1 << 16), sym("s", 0, 1 << 16)

    def judge_of(n, fields):
        def judge(k, o):
            if k == "exc":
                ctx.bad("%s accepted" % n, lib.exc_str(o), o.where)
                return
            for f, want in fields:
                ctx.req(eqn(attr(o, f), want), "%s attributes" % n, lambda: "%s.%s is %s" % (n, f, show(attr(o, f))), "hrdc/descriptor/descriptor.py")
            ctx.req(attr(o, "way") is way, "%s direction" % n, n, "hrdc/descriptor/descriptor.py")
            ctx.req(get(V) in o.cls.mro, "%s is a value" % n, n, "hrdc/descriptor/descriptor.py")
        return judge
    ctx.explore("Align", lambda: call(get("hrdc.descriptor:Align"), way, b), judge_of("Align", [("boundary", b), ("size", 0), ("flags", 3)]))
    ctx.explore("Padding", lambda: call(get("hrdc.descriptor:Padding"), way, s), judge_of("Padding", [("size", s), ("flags", 3), ("count", 1)]))


def tasks(tier):
    for f in ("omitted", "int", "named"):
        yield "bounds.%s" % f, t_bounds(f)
    yield "attributes", t_rest
    yield "namedarray", t_array
    yield "subclasses", t_sub
