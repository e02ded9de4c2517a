"""C15: usage lookup, splitting and ranges agree on the code."""
import itertools
from .codec import *
from ..lib import add, sub, lst

RULE = ("For an abstract 32-bit code: lookup/split/page/inpage return objects whose value numbers are the code, its high "
        "and its low half, on both the registered and the unregistered partition, without touching the registry; for an "
        "abstract range: __len__ is max-min+1, iteration and indexing give min+i; from_array accepts an abstract list "
        "exactly on the partitions whose store entails consecutive codes.")
BOUNDS = "range iteration and from_array k-limited to 6 elements (codes abstract); codes 0..2^32-1"
MIN_OBLIGATIONS = {"quick": 200}
U = "hrdc.usage:Usage"
WH = "hrdc/usage/usage.py"


def args():
    nc, us = get("hrdc.util:NamedConstant"), get(U)
    return {"int": lambda v: v, "NamedConstant": lambda v: call(nc, "x", v),
            "Usage": lambda v: call(us, "mod.name", v, register=False)}


def registry():
    return get(U + ".reverse")


def snapshot():
    r = registry()
    return dict(r.e)


def t_lookup(kind):
    def run(ctx):
        mk = args()[kind]
        v = sym("v", 0, U32)
        us = get(U)
        before = snapshot()

        def fn():
            x = mk(v)
            u = m(us, "lookup", x)
            s = m(u, "split")
            return x, u, list(I.iterate(s))

        def judge(k, r):
            inp = "Usage.lookup(%s %s)" % (kind, show(v))
            if k == "exc":
                ctx.bad("lookup total", "%s raises %s" % (inp, lib.exc_str(r)), r.where, inp)
                return
            x, u, s = r
            if not ctx.req(isinstance(u, Inst) and us in u.cls.mro, "lookup gives a Usage", lambda: "%s: %s" % (inp, show(u)), WH, inp):
                return
            ctx.req(same(int_of(u), v), "lookup keeps the code", lambda: "%s has code %s" % (inp, show(int_of(u))), WH, inp)
            if kind == "Usage":
                ctx.req(u is x, "lookup of a usage is itself", inp, WH, inp)
            now = snapshot()
            ctx.req(now.keys() == before.keys() and all(now[c] is before[c] or now[c][1] is before[c][1] for c in before),
                    "lookup registers nothing", lambda: "%s changes the registry" % inp, WH, inp)
            if not ctx.req(len(s) == 2, "split gives page and id", lambda: "%s split %s" % (inp, show(s)), WH, inp):
                return
            from ..engine.num import BUILDERS, Poly
            p = w.store.poly(v)
            hi, lo = I.arith(">>", v, 16), I.arith("&", v, 0xffff)
            ctx.req(same(int_of(s[0]), hi), "split page", lambda: "%s: page %s" % (inp, show(int_of(s[0]))), WH, inp)
            ctx.req(same(int_of(s[1]), lo), "split id", lambda: "%s: id %s" % (inp, show(int_of(s[1]))), WH, inp)
        ctx.explore("lookup %s" % kind, fn, judge)
    return run


def t_inpage(ctx):
    us = get(U)
    for pk in ("int", "NamedConstant"):
        for uk in ("int", "NamedConstant"):
            p, u = sym("page", 0, 0xffff), sym("id", 0, 0xffff)

            def judge(k, r):
                inp = "inpage(%s %s, %s %s)" % (pk, show(p), uk, show(u))
                if k == "exc":
                    ctx.bad("inpage total", "%s raises %s" % (inp, lib.exc_str(r)), r.where, inp)
                else:
                    ctx.req(same(int_of(r), u), "inpage keeps the id", lambda: "%s gives %s" % (inp, show(int_of(r))), WH, inp)
            ctx.explore("inpage", lambda: m(us, "inpage", args()[pk](p), args()[uk](u)), judge)
        p = sym("page", 0, U32)

        def judge2(k, r):
            if k == "exc":
                ctx.bad("page total", "page(%s) raises %s" % (show(p), lib.exc_str(r)), r.where)
            else:
                ctx.req(same(int_of(r), p), "page keeps the number", lambda: "page(%s) gives %s" % (show(p), show(int_of(r))), WH)
        ctx.explore("page", lambda: m(us, "page", args()[pk](p)), judge2)


def t_define(ctx):
    """A defined usage is what lookup gives for its code."""
    us = get(U)
    for code in (0xff000001, 0x10030, 0xffffffff, 0x20000):
        def fn():
            u = call(us, "x.Y", code)
            return u, m(us, "lookup", code)

        def judge(k, r):
            if k == "exc":
                ctx.bad("define and look up", lib.exc_str(r), r.where)
            else:
                ctx.req(r[0] is r[1], "defined usage is found", "lookup(%#x) does not give the usage just defined" % code, WH)
        ctx.explore("define", fn, judge)


def t_range(kind):
    def run(ctx):
        mk = args()[kind]
        R = get("hrdc.usage:UsageRange")
        a, b = sym("a", 0, U32), sym("b", 0, U32)

        def judge(k, r):
            if k == "exc":
                ctx.bad("range length", lib.exc_str(r), r.where)
            else:
                ctx.req(same(int_of(r), add(sub(b, a), 1)), "length is max-min+1", lambda: "length %s" % show(r), WH)

        def fn():
            if not lib.le(a, b):
                raise lib.Infeasible()
            return m(call(R, mk(a), mk(b)), "__len__")
        ctx.explore("len", fn, judge)
        for n in range(1, 7):
            a = sym("a", 0, U32 - n)

            def fn():
                r = call(R, mk(a), mk(add(a, n - 1)))
                it = I.iterate_list(r)
                ix = [I.getitem(r, i) for i in range(n)]
                return it, ix

            def judge(k, r):
                inp = "UsageRange(%s, +%d) of %s" % (show(a), n - 1, kind)
                if k == "exc":
                    ctx.bad("range total", "%s raises %s" % (inp, lib.exc_str(r)), r.where, inp)
                    return
                it, ix = r
                ctx.req(len(it) == n, "iteration has length many elements", lambda: "%s yields %d" % (inp, len(it)), WH, inp)
                for i, x in enumerate(it[:n]):
                    ctx.req(same(int_of(x), add(a, i)), "iteration in order", lambda: "%s: element %d is %s" % (inp, i, show(int_of(x))), WH, inp)
                for i, x in enumerate(ix):
                    ctx.req(same(int_of(x), add(a, i)), "indexing agrees", lambda: "%s[%d] is %s" % (inp, i, show(int_of(x))), WH, inp)
            ctx.explore("range of %d" % n, fn, judge)
    return run


def t_from_array(kind):
    def run(ctx):
        mk = args()[kind]
        R = get("hrdc.usage:UsageRange")
        for n in range(0, 6):
            vs = [sym("u%d" % i, 0, U32) for i in range(n)]

            def fn():
                r = m(R, "from_array", lst(*[mk(v) for v in vs]))
                return r

            def judge(k, r):
                inp = "from_array(%s)" % show(vs)
                steps = [lib.known_eq(sub(vs[i + 1], vs[i]), 1) for i in range(n - 1)]
                if k == "exc":
                    ctx.req(lib.exc_name(r) == "ValueError", "refusal is a ValueError", lambda: lib.exc_str(r), r.where, inp)
                    ctx.req(n < 2 or any(s is False for s in steps), "consecutive list accepted",
                            lambda: "%s refused: %s" % (inp, lib.exc_str(r)), r.where, inp)
                else:
                    ctx.req(n >= 2 and all(s is True for s in steps), "only consecutive lists accepted",
                            lambda: "%s accepted" % inp, WH, inp)
                    if n:
                        ctx.req(same(int_of(attr(r, "min")), vs[0]) and same(int_of(attr(r, "max")), vs[-1]),
                                "range bounds are the list's ends", lambda: "%s -> %s..%s" % (inp, show(attr(r, "min")), show(attr(r, "max"))), WH, inp)
            ctx.explore("from_array %d" % n, fn, judge)
    return run


def t_large(kind):
    """Long lists and ranges, with the fault anywhere in them."""
    def run(ctx):
        mk = args()[kind]
        R = get("hrdc.usage:UsageRange")
        n = 260
        for base in (0x8ff80, 0xfffffe00):
            for at in (None, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, n - 3, n - 2, n - 1):
                for how in (0, 2) if at is not None else (None,):
                    def fn():
                        vs = [add(base, i) for i in range(n)]
                        if how == 0:
                            vs[at] = vs[at - 1]
                        elif how == 2:
                            vs[at:] = [add(x, 1) for x in vs[at:]]
                        try:
                            r = m(R, "from_array", lst(*[mk(v) for v in vs]))
                        except lib.PyExc as e:
                            return lib.exc_name(e), None, None
                        return "ok", (vs[0], vs[-1]), (int_of(attr(r, "min")), int_of(attr(r, "max")))

                    def judge(k, r):
                        inp = "from_array of %d usages from %s%s" % (n, show(base), "" if at is None else ", %s at %d" % ("repeated" if how == 0 else "one left out", at))
                        if k == "exc":
                            ctx.bad("from_array gives a verdict", "%s raises %s" % (inp, lib.exc_str(r)), r.where, inp)
                        elif at is None:
                            ctx.req(r[0] == "ok" and same(r[1][0], r[2][0]) and same(r[1][1], r[2][1]), "consecutive list accepted", lambda: "%s: %s" % (inp, r[0]), WH, inp)
                        else:
                            ctx.req(r[0] == "ValueError", "only consecutive lists accepted", lambda: "%s: %s" % (inp, r[0]), WH, inp)
                    ctx.explore("long list", fn, judge)
        for n, a in itertools.product((16, 255, 256, 257, 1000, 3000), (1, 0x90001, 0x6ff80, 0xffff0000)):
            def fn():
                r = call(R, mk(a), mk(add(a, n - 1)))
                return [int_of(x) for x in I.iterate_list(r)], int_of(m(r, "__len__")), [(i, int_of(I.getitem(r, i))) for i in (0, 1, n // 2, n - 2, n - 1)]

            def judge(k, r):
                inp = "UsageRange(%s, +%d) of %s" % (show(a), n - 1, kind)
                if k == "exc":
                    ctx.bad("range total", "%s raises %s" % (inp, lib.exc_str(r)), r.where, inp)
                    return
                ctx.req(len(r[0]) == n and all(same(x, add(a, i)) for i, x in enumerate(r[0])), "iteration in order", lambda: "%s yields %d" % (inp, len(r[0])), WH, inp)
                ctx.req(same(r[1], n), "length is max-min+1", lambda: "%s: %s" % (inp, show(r[1])), WH, inp)
                ctx.req(all(same(x, add(a, i)) for i, x in r[2]), "indexing agrees", lambda: "%s: %s" % (inp, show([x for _, x in r[2]])), WH, inp)
            ctx.explore("long range", fn, judge)
    return run


def tasks(tier):
    for k in ("int", "NamedConstant", "Usage"):
        yield "lookup.%s" % k, t_lookup(k)
        yield "range.%s" % k, t_range(k)
        yield "from_array.%s" % k, t_from_array(k)
        yield "large.%s" % k, t_large(k)
    yield "inpage", t_inpage
    yield "define", t_define
