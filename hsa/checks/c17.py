"""C17: visiting and editing descriptor trees."""
import itertools
from .codec import *
from ..lib import AList, PyExc, has

RULE = ("accept() analysed on every ordered tree shape up to the bound and on containers with abstract members; the log of "
        "visitor callbacks must be the pre-order nesting of the tree, once per visit.  The list operations of the containers "
        "analysed on every history of constructor members, append and pop up to the bound against the sequence model.")
BOUNDS = ("tree shapes of up to 5 nodes below the root with the four container and three value kinds assigned in rotation, "
          "depth chains to 8 and fan-out to 12; edit histories of up to 4 operations")
MIN_OBLIGATIONS = {"quick": 800}
D = "hrdc.descriptor:"
WH = "hrdc/descriptor/descriptor.py"


def shapes(n):
    """All ordered forests of n nodes; a node is ('v',) or ('c', forest)."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):           # size of the first tree
        for rest in shapes(n - k):
            if k == 1:
                yield (("v",),) + rest
            for sub in shapes(k - 1):
                yield (("c", sub),) + rest


def maker():
    """Builds nodes, container and value kinds in rotation."""
    kinds = itertools.cycle([0, 1, 2])
    vals = itertools.cycle([0, 1, 2, 3])
    us = get("hrdc.usage:Usage")
    V, C, R, T = get(D + "Value"), get(D + "Collection"), get(D + "Report"), get(D + "TopLevel")
    ways = itertools.cycle(["Input", "Output", "Feature"])

    def cont(members):
        k = next(kinds)
        if k == 0:
            return I.call(C, [attr(C, "Logical"), sym("cu", 0, U32)] + members, {})
        if k == 1:
            return I.call(R, [sym("rid", 0, 255)] + members, {})
        return I.call(T, members, {})

    def val():
        k = next(vals)
        wy = attr(V, next(ways))
        if k == 0:
            return I.call(V, [wy, sym("u", 1, U32), sym("size", 0, 64)], {"logicalMin": 0, "logicalMax": sym("lx", 0, 255)})
        if k == 1:
            return call(get(D + "Align"), wy, sym("b", 0, 64))
        if k == 2:
            return call(get(D + "Padding"), wy, sym("p", 0, 64))
        return I.call(V, [wy, None, 8], {"namedArray": lib.lst(sym("a", 0, U32), sym("b", 0, U32))})

    def node(s):
        if s[0] == "v":
            return val(), [], None
        kids = [node(x) for x in s[1]]
        o = cont([k[0] for k in kids])
        return o, kids, True
    return cont, val, node


def expected(n):
    o, kids, c = n
    if not c:
        return [("element", o)]
    out = [("enter", o)]
    for k in kids:
        out += expected(k)
    return out + [("leave", o)]


def logof(v):
    return [(x[0], x[1]) for x in attr(v, "log").v]


def cmp_log(ctx, got, want, rule, what):
    ok = len(got) == len(want) and all(g[0] == e[0] and g[1] is e[1] for g, e in zip(got, want))
    f = lambda l: " ".join("%s:%s" % (a, b.cls.name if hasattr(b, "cls") else show(b)) for a, b in l)
    ctx.req(ok, rule, lambda: "%s: callbacks [%s], expected [%s]" % (what, f(got), f(want)), WH, what)


def t_shapes(n):
    def run(ctx):
        L = get("hsa_harness:Log")
        for s in shapes(n):
            def fn():
                cont, val, node = maker()
                t = node(("c", s))
                l1, l2 = call(L), call(L)
                r = m(t[0], "accept", l1)
                m(t[0], "accept", l2)
                return t, l1, l2, r

            def judge(k, r):
                if k == "exc":
                    ctx.bad("visiting never fails", "tree %s: %s" % (s, lib.exc_str(r)), r.where, str(s))
                    return
                t, l1, l2, ret = r
                cmp_log(ctx, logof(l1), expected(t), "enter, leave and element once each, nested and in order", "tree %s" % (s,))
                cmp_log(ctx, logof(l2), expected(t), "a second visit is the same", "tree %s" % (s,))
            ctx.explore("tree %s" % (s,), fn, judge)
    return run


def t_kinds(n, root):
    """All trees of n nodes below a root, with every assignment of element kinds."""
    def sorts(f):
        """All ways to decide the kinds in a forest."""
        if not f:
            yield ()
            return
        for rest in sorts(f[1:]):
            if f[0][0] == "v":
                for k in range(5):
                    yield (("v", k),) + rest
            else:
                for sub in sorts(f[0][1]):
                    for k in range(4):
                        yield (("c", k, sub),) + rest

    def run(ctx):
        L = get("hsa_harness:Log")
        V, C, R, T = get(D + "Value"), get(D + "Collection"), get(D + "Report"), get(D + "TopLevel")
        wy = attr(V, "Input")

        def build(s):
            if s[0] == "v":
                return [lambda: I.call(V, [wy, 0x10001, 8], {"logicalMin": 0, "logicalMax": 1}), lambda: call(get(D + "Align"), wy, 8),
                        lambda: call(get(D + "Padding"), wy, 8), lambda: I.call(V, [wy, None, 8], {"flags": 1}),
                        lambda: I.call(V, [wy, 0x10001, 0], {"namedArray": lib.lst(1, 2), "count": 0})][s[1]](), [], None
            kids = [build(x) for x in s[2]]
            ms = [k[0] for k in kids]
            return [lambda: I.call(C, [attr(C, "Logical"), 0x10002] + ms, {}), lambda: I.call(C, [attr(C, "Application"), None] + ms, {}),
                    lambda: I.call(R, [1] + ms, {}), lambda: I.call(T, ms, {})][s[1]](), kids, True
        for f in shapes(n):
            for s in sorts(f):
                def fn():
                    t = build(("c", root, s))
                    l1 = call(L)
                    m(t[0], "accept", l1)
                    return t, l1

                def judge(k, r):
                    if k == "exc":
                        ctx.bad("visiting never fails", "tree %s: %s" % (s, lib.exc_str(r)), r.where, str(s))
                        return
                    cmp_log(ctx, logof(r[1]), expected(r[0]), "enter, leave and element once each, nested and in order", "tree %s" % (s,))
                ctx.explore("kinds", fn, judge)
    return run


def t_long(ctx):
    L = get("hsa_harness:Log")
    deep = ("v",)
    for i in range(8):
        deep = ("c", (deep,))
    wide = ("c", tuple([("v",)] * 12))
    mixed = ("c", tuple(("c", (("v",), ("c", ()))) if i % 2 else ("v",) for i in range(6)))
    for s in (deep, wide, mixed, ("v",)):
        def fn():
            t = maker()[2](s)
            l1 = call(L)
            m(t[0], "accept", l1)
            return t, l1

        def judge(k, r):
            if k == "exc":
                ctx.bad("visiting never fails", lib.exc_str(r), r.where)
                return
            cmp_log(ctx, logof(r[1]), expected(r[0]), "enter, leave and element once each, nested and in order", str(s))
        ctx.explore("long", fn, judge)

    # the same object twice is visited twice; two trees sharing a member
    def fn():
        cont, val, node = maker()
        v = val()
        c = cont([v, v])
        t = cont([c, v, c])
        l = call(L)
        m(t, "accept", l)
        vn = (v, [], None)
        cn = (c, [vn, vn], True)
        return (t, [cn, vn, cn], True), l

    def judge(k, r):
        if k == "exc":
            ctx.bad("visiting never fails", lib.exc_str(r), r.where)
            return
        cmp_log(ctx, logof(r[1]), expected(r[0]), "a repeated member is visited each time", "shared member")
    ctx.explore("shared", fn, judge)

    # visits of different trees are independent; edits between visits count
    def fn():
        cont, val, node = maker()
        a, b = node(("c", (("v",), ("c", (("v",),))))), node(("c", (("c", ()), ("v",))))
        ls = [call(L) for _ in range(4)]
        m(a[0], "accept", ls[0])
        m(b[0], "accept", ls[1])
        m(a[0], "accept", ls[2])
        x = val()
        m(a[0], "append", x)
        m(a[0], "accept", ls[3])
        return a, b, x, ls

    def judge(k, r):
        if k == "exc":
            ctx.bad("visiting never fails", lib.exc_str(r), r.where)
            return
        a, b, x, ls = r
        cmp_log(ctx, logof(ls[0]), expected(a), "visits are independent", "first tree")
        cmp_log(ctx, logof(ls[1]), expected(b), "visits are independent", "second tree")
        cmp_log(ctx, logof(ls[2]), expected(a), "visits are independent", "first tree again")
        cmp_log(ctx, logof(ls[3]), expected((a[0], a[1] + [(x, [], None)], True)), "edits between visits count", "after append")
    ctx.explore("independent", fn, judge)

    # the visitor base class ignores everything
    if has("hrdc.descriptor.descriptor:Visitor"):
        def fn():
            cont, val, node = maker()
            t = node(("c", (("v",), ("c", ()))))
            m(t[0], "accept", call(get("hrdc.descriptor.descriptor:Visitor")))
            return True
        ctx.explore("base visitor", fn, lambda k, r: ctx.req(k == "ok", "the base visitor accepts any tree", lambda: lib.exc_str(r), WH))


def mk(kind, members):
    C, R, T = get(D + "Collection"), get(D + "Report"), get(D + "TopLevel")
    if kind == "Collection":
        return I.call(C, [attr(C, "Application"), sym("cu", 0, U32)] + members, {})
    if kind == "Report":
        return I.call(R, [sym("rid", 0, 255)] + members, {})
    return I.call(T, members, {})


def members(rot):
    """Members of every sort in turn, starting with sort rot; sort 8 repeats the last one."""
    cont, val, node = maker()
    n = itertools.count(rot)
    last = [None]

    def fresh():
        k = next(n) % 9
        if k == 8 and last[0] is not None:
            return last[0]
        C, R, T = get(D + "Collection"), get(D + "Report"), get(D + "TopLevel")
        last[0] = x = [lambda: call(get("hsa_harness:Sink")), lambda: val(), lambda: call(C, attr(C, "Logical"), None), lambda: call(R, 0), lambda: call(T),
                       lambda: val(), lambda: call(C, attr(C, "Report"), 0, val()), lambda: call(R, 3, val()), lambda: val()][k]()
        return x
    return fresh


def t_edit(kind):
    def run(ctx):
        for rot, n0 in itertools.product(range(9), range(4)):
            for hist in itertools.chain.from_iterable(itertools.product("ap", repeat=r) for r in range(4)):
                def fn():
                    fresh = members(rot)
                    model = [fresh() for _ in range(n0)]
                    o = mk(kind, list(model))
                    errs = []
                    for h in hist:
                        if h == "a":
                            x = fresh()
                            m(o, "append", x)
                            model.append(x)
                        elif model:
                            m(o, "pop")
                            model.pop()
                        else:
                            raise lib.Infeasible
                    n = len(model)
                    obs = [I.call(I.builtin("len") if hasattr(I, "builtin") else len_(), [o], {})]
                    it = I.iterate_list(o)
                    ix = [I.getitem(o, i) for i in range(n)]
                    neg = [I.getitem(o, -i - 1) for i in range(n)]
                    oob = None
                    try:
                        I.getitem(o, n)
                        oob = "no error"
                    except PyExc as e:
                        oob = lib.exc_name(e)
                    return model, obs[0], it, ix, neg, oob

                def judge(k, r):
                    what = "%s with %d members, history %s" % (kind, n0, "".join(hist))
                    if k == "exc":
                        ctx.bad("container operations succeed", "%s: %s" % (what, lib.exc_str(r)), r.where, what)
                        return
                    model, ln, it, ix, neg, oob = r
                    n = len(model)
                    ctx.req(ln == n, "length", lambda: "%s: len %s" % (what, show(ln)), WH, what)
                    ctx.req(len(it) == n and all(a is b for a, b in zip(it, model)), "iteration order", what, WH, what)
                    ctx.req(all(a is b for a, b in zip(ix, model)), "indexing", what, WH, what)
                    ctx.req(all(a is b for a, b in zip(neg, reversed(model))), "negative indexing", what, WH, what)
                    ctx.req(oob == "IndexError", "index out of range", lambda: "%s: %s" % (what, oob), WH, what)
                ctx.explore("edits", fn, judge)
    return run


def t_two(kind):
    """Edits of one container do not show in another one, whatever they started with."""
    def run(ctx):
        for k2 in ("Collection", "Report", "TopLevel"):
            for n1, n2 in itertools.product(range(3), repeat=2):
                for hist in itertools.chain.from_iterable(itertools.product("aApP", repeat=r) for r in range(1, 4)):
                    for shared in (False, True):
                        def fn():
                            fresh = lambda: call(get("hsa_harness:Sink"))
                            m1 = [fresh() for _ in range(n1)]
                            m2 = list(m1[:n2]) + [fresh() for _ in range(n2 - n1)] if shared else [fresh() for _ in range(n2)]
                            o1, o2 = mk(kind, list(m1)), mk(k2, list(m2))
                            for h in hist:
                                o, mod = (o1, m1) if h in "ap" else (o2, m2)
                                if h in "aA":
                                    x = fresh()
                                    m(o, "append", x)
                                    mod.append(x)
                                elif mod:
                                    m(o, "pop")
                                    mod.pop()
                                else:
                                    raise lib.Infeasible
                            return [(mod, I.iterate_list(o)) for o, mod in ((o1, m1), (o2, m2))]

                        def judge(k, r):
                            what = "%s with %d and %s with %d members, history %s" % (kind, n1, k2, n2, "".join(hist))
                            if k == "exc":
                                ctx.bad("container operations succeed", "%s: %s" % (what, lib.exc_str(r)), r.where, what)
                                return
                            for mod, got in r:
                                ctx.req(len(mod) == len(got) and all(x is y for x, y in zip(mod, got)), "containers do not share members", what, WH, what)
                        ctx.explore("two containers", fn, judge)
    return run


def len_():
    from ..engine import builtins_
    return builtins_.BUILTINS["len"]


def t_attrs(ctx):
    C, R = get(D + "Collection"), get(D + "Report")
    kd, us, rid = sym("kind", 0, 255), sym("usage", 0, U32), sym("rid", 0, 255)

    def fn():
        x = call(get("hsa_harness:Sink"))
        return call(C, kd, us, x), call(R, rid, x), call(C, kd, None)

    def judge(k, r):
        if k == "exc":
            ctx.bad("containers are built", lib.exc_str(r), r.where)
            return
        c, rp, c2 = r
        ctx.req(same(int_of(attr(c, "kind")), kd), "collection kind kept", lambda: show(attr(c, "kind")), WH)
        ctx.req(same(int_of(attr(c, "usage")), us), "collection usage kept", lambda: show(attr(c, "usage")), WH)
        ctx.req(same(int_of(attr(rp, "id")), rid), "report id kept", lambda: show(attr(rp, "id")), WH)
        ctx.req(attr(c2, "usage") is None, "absent usage kept", lambda: show(attr(c2, "usage")), WH)
    ctx.explore("attributes", fn, judge)


def tasks(tier):
    for n in range(0, 7 if tier == "quick" else 9):
        yield "shapes.%d" % n, t_shapes(n)
    for n in range(1, 4 if tier == "quick" else 6):
        for root in range(4):
            yield "kinds.%d.%d" % (n, root), t_kinds(n, root)
    yield "long", t_long
    for k in ("Collection", "Report", "TopLevel"):
        yield "edit.%s" % k, t_edit(k)
        yield "two.%s" % k, t_two(k)
    yield "attributes", t_attrs
