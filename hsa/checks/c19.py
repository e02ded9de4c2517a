"""C19: runs are independent and leave their input alone."""
import itertools
from .codec import *
from ..lib import lst, add, mkstr, mkbytes, B, AStr, ABytes, AList, ADict, Cls, Mod, Func
from ..engine import strings, objs
from ..engine.objs import ASet
from .. import hid
from .c04 import raw
from .c05 import FMT, PRS, hexb
from .c07 import it, uobj
from . import c12
from .c12 import V, coll, top, rep, U

RULE = ("Effect analysis: during each operation every write to a heap object that existed before it (descriptor elements, items, named "
        "constants, classes, modules, mutable defaults, registries) is recorded; at the end no such object may differ from what it was.  "
        "Each operation is also repeated, and run step by step in turns with another one, and must give equal value numbers each time.")
BOUNDS = "every operation of the library on 12 item streams and 14 trees with abstract values; turns of one step, in both orders"
MIN_OBLIGATIONS = {"quick": 600}


# -- writes -------------------------------------------------------------------------------

class Watch:
    """Objects written although older than the operation."""

    def __enter__(self):
        self.since = objs.birth()
        self.seen = {}
        self.old = w.on_touch

        def f(o):
            if o.birth <= self.since and id(o) not in self.seen:
                self.seen[id(o)] = (o, o.snap(), w.line)
        w.on_touch = f
        return self

    def __exit__(self, *a):
        w.on_touch = self.old

    def changed(self):
        out = []
        for o, s, line in self.seen.values():
            t = o.snap()
            if isinstance(o, ADict) and isinstance(o.default, tuple) and o.default[0] == "memo" and all(plain(v) for _, v in o.e.values()):
                continue        # functools.cache of a function that gives nothing mutable: no run can tell
            if not unchanged(s, t):
                out.append((o, s, t, line))
        return out


def plain(v):
    return isinstance(v, (int, AInt, str, AStr, bytes, ABytes, float, bool, type(None), Cls, Func)) \
        or isinstance(v, tuple) and all(plain(x) for x in v)


def unchanged(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(unchanged(a[k], b[k]) for k in a)
    if isinstance(a, (int, AInt)) and isinstance(b, (int, AInt)) and not isinstance(a, bool) and not isinstance(b, bool):
        return same(a, b)
    if type(a) is type(b) and isinstance(a, (str, bytes, bool, float, type(None))):
        return a == b
    if isinstance(a, (AStr, ABytes)) and type(a) is type(b):
        return a == b
    return False


def owner(o, roots):
    """How the object is reached from a root, for the report."""
    todo = [(n, r) for n, r in roots]
    seen = set()
    while todo:
        n, x = todo.pop(0)
        if x is o:
            return n
        if id(x) in seen or len(seen) > 200000:
            continue
        seen.add(id(x))
        if isinstance(x, Mod):
            if x.path and str(x.path).startswith(I.REPO):
                todo += [("%s.%s" % (x.name, k), v) for k, v in x.ns.items() if not isinstance(v, Mod)]
        elif isinstance(x, Cls):
            todo += [("%s.%s" % (n, k), v) for k, v in x.ns.items()]
        elif isinstance(x, objs.Inst):
            todo += [("%s.%s" % (n, k), v) for k, v in x.d.items()]
        elif isinstance(x, AList):
            todo += [("%s[%d]" % (n, i), v) for i, v in enumerate(x.v)]
        elif isinstance(x, ADict):
            todo += [("%s[%s]" % (n, show(k)), v) for k, v in x.e.values()]
        elif isinstance(x, tuple):
            todo += [("%s[%d]" % (n, i), v) for i, v in enumerate(x)]
        elif isinstance(x, Func):
            todo += [("default of %s" % n, v) for v in list(x.defaults or ()) + list((x.kwdefaults or {}).values() if isinstance(x.kwdefaults, dict) else ())]
        elif isinstance(x, (objs.ClassMethod, objs.StaticMethod)):
            todo.append((n, x.fn))
    return "an object"


def roots(args):
    return [("argument %d" % i, a) for i, a in enumerate(args)] + [(m_.name, m_) for m_ in list(I.MODULES.values()) if isinstance(m_, Mod)]


# -- results ------------------------------------------------------------------------------

def res_sink(s):
    return [hid.named(i) for i in attr(s, "items").v] + [("closed", attr(s, "closed"))]


def res_file(f):
    c = list(f.h["out"].v)
    b = f.d.get("buffer")
    if b is not None and b.h["out"] is not f.h["out"]:
        c += list(b.h["out"].v)
    if c and isinstance(c[0], (bytes, ABytes)):
        return [u for x in c for u in I.units(x)]
    return mkstr(c)


def equal(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, AInt)) and isinstance(b, (int, AInt)):
        return same(a, b)
    if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
        return strings.renorm(a) == strings.renorm(b)
    return a == b


# -- operations, as generators of steps: the last value is the result ---------------------

def feed(o, items):
    for i in items:
        m(o, "append", i)
        yield None


def op_optimize(items):
    s = lib.sink()
    o = call(get("hrdc.stream.optimizer:Optimizer.new"), s)
    yield from feed(o, items)
    m(o, "close")
    yield res_sink(s)


def op_format(form):
    def op(items):
        f = B.mkfile("out", "wb" if form == "Binary" else "w")
        o = call(get(FMT + form), f)
        yield from feed(o, items)
        m(o, "close")
        yield res_file(f)
    return op


def op_extract(items):
    x = call(get("hrdc.descriptor.extractor:Extractor"))
    yield from feed(x, items)
    yield c12.tree(attr(x, "root"), "", [])


def op_encode(items):
    out = []
    for i in items:
        out += list(I.units(m(i, "bytes")))
        out.append(call(B.BUILTINS["str"], i) if "str" in B.BUILTINS else None)
        yield None
    yield out


class Steps:
    """A visitor that lets another run go on at each callback."""


def visited(tree, visitor):
    """accept() in steps, one callback at a time."""
    log = call(get("hsa_harness:Log"))
    m(tree, "accept", log)
    for e in attr(log, "log").v:
        m(visitor, e[0], e[1])
        yield None


def op_compile(tree):
    s = lib.sink()
    yield from visited(tree, call(get("hrdc.descriptor.streamer:Streamer"), s))
    yield res_sink(s)


def op_compile_opt(tree):
    s = lib.sink()
    o = call(get("hrdc.stream.optimizer:Optimizer.new"), s)
    yield from visited(tree, call(get("hrdc.descriptor.streamer:Streamer"), o))
    m(o, "close")
    yield res_sink(s)


def op_dump(tree):
    f = B.mkfile("out.py", "w")
    yield from visited(tree, call(get("hrdc.descriptor.dumper:Dumper"), f))
    yield res_file(f)


def op_visit(tree):
    log = call(get("hsa_harness:Log"))
    m(tree, "accept", log)
    yield [(e[0], e[1].birth) for e in attr(log, "log").v] + c12.tree(tree, "", [])


def op_parse(form):
    def op(content):
        f = B.mkfile("in", "rb" if form == "Binary" else "r", content)
        s = lib.sink()
        p = call(get(PRS + form), f, s)
        yield None
        m(p, "read")
        yield res_sink(s)
    return op


def finish(g):
    r = None
    for r in g:
        pass
    return r


def turns(a, b):
    """Step a and b in turns to their ends."""
    ra = rb = None
    live = [a, b]
    res = {}
    while live:
        for g in list(live):
            try:
                res[id(g)] = next(g)
            except StopIteration:
                live.remove(g)
    return res[id(a)], res[id(b)]


# -- judging ------------------------------------------------------------------------------

def alone(ctx, what, op, mk, where, twice=True, other=None):
    """op on mk(): writes, repetition and, with another input, turns."""
    def fn():
        a = mk()
        args = a if isinstance(a, (list, tuple)) else [a]
        b = other[1]() if other else None
        with Watch() as wt:
            r1 = finish(op(a))
        ch = [(o, s, t, line, owner(o, roots(args))) for o, s, t, line in wt.changed()]
        r2 = finish(op(a)) if twice else r1
        rt = ro = None
        if other:
            ro = finish(other[0](b))
            rt = turns(op(a), other[0](b)), turns(other[0](b), op(a))
        return r1, r2, ch, rt, ro

    def judge(k, r):
        if k == "exc":
            ctx.bad("the operation succeeds", "%s: %s" % (what, lib.exc_str(r)), r.where, what)
            return
        r1, r2, ch, rt, ro = r
        if ch:
            o, s, t, line, name = ch[0]
            ctx.bad("nothing that existed before is modified", "%s: %s (%s) is modified at %s" % (what, name, type_name(o), loc(line)), line, what)
        else:
            ctx.ok("nothing that existed before is modified")
        ctx.req(equal(r1, r2), "repeating gives the same result", lambda: "%s: %s" % (what, differ(r1, r2)), where, what)
        if rt:
            (x1, y1), (y2, x2) = rt
            for x, y in ((x1, y1), (x2, y2)):
                ctx.req(equal(r1, x), "another stream in use does not matter", lambda: "%s, in turns with another: %s" % (what, differ(r1, x)), where, what)
                ctx.req(equal(ro, y), "another stream in use does not matter", lambda: "beside %s: %s" % (what, differ(ro, y)), where, what)
    ctx.explore(what, fn, judge)


loc = lib.loc


def type_name(o):
    return o.cls.name if isinstance(o, objs.Inst) else o.name if isinstance(o, (Cls, Mod, Func)) else type(o).__name__.lstrip("A").lower()


def differ(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%d elements instead of %d" % (len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            if not equal(x, y):
                return "element %d: %s" % (i, differ(x, y))
    return "%s instead of %s" % (show(b), show(a))


# -- inputs -------------------------------------------------------------------------------

def streams():
    S = (-(1 << 31), (1 << 31) - 1)
    g = lambda: [("LogicalMinimum", sym("lmin", -1000, -600)), ("LogicalMaximum", sym("lmax", 600, 1000)), ("PhysicalMinimum", sym("pmin", -4000, -2100)),
                 ("PhysicalMaximum", sym("pmax", 2100, 4000)), ("Unit", sym("unit", 1 << 25, (1 << 26) - 1)), ("UnitExponent", sym("exp", 4, 7)),
                 ("ReportSize", sym("size", 33, 63)), ("ReportCount", 1)]
    u = lambda k: ("Usage", uobj(0x1000001 + k))
    C, E = [u(100), ("Collection", 1)], [("EndCollection", 0)]
    I2 = ("Input", 2)
    return {
        "mergeable": lambda: C + g() + [u(0), I2, u(1), I2, u(2), I2] + E,
        "flags apart": lambda: C + g() + [u(0), I2, u(1), ("Input", 6), ("Input", 3), ("Input", 3)] + E,
        "counts": lambda: C + g() + [("ReportCount", 2), u(0), u(5), I2, ("ReportCount", 1), u(2), I2] + E,
        "directions": lambda: C + g() + [u(0), I2, u(1), ("Output", 2), u(2), ("Feature", 0x102)] + E,
        "pages": lambda: [("UsagePage", 0x300), ("Usage", 1)] + C[1:] + g() + [("Usage", 2), I2, ("UsagePage", 0x301), ("Usage", 3), I2] + E,
        "push": lambda: C + g() + [("Push", 0), ("ReportSize", 3), u(0), I2, ("Pop", 0), u(1), I2] + E,
        "array": lambda: C + g() + [("LogicalMinimum", 1), ("LogicalMaximum", 3), u(0), u(1), u(2), ("Input", 0)] + E,
        "range": lambda: C + g() + [("ReportCount", 3), ("UsageMinimum", uobj(0x1000001)), ("UsageMaximum", uobj(0x1000003)), I2, u(9), ("Input", 2)] + E,
        "locals": lambda: C + g() + [u(0), ("DesignatorIndex", sym("d", 128, 255)), ("StringIndex", sym("s", 128, 255)), I2, u(1), I2] + E,
        "wide locals": lambda: C + g() + [u(0), ("DesignatorIndex", sym("d", 1 << 17, (1 << 18) - 1)), ("StringIndex", sym("s", 1 << 25, (1 << 26) - 1)), I2,
                                          ("DesignatorMinimum", sym("e", 1 << 17, (1 << 18) - 1)), u(1), I2, ("StringMinimum", 70000), ("StringMaximum", 70001), u(2), I2] + E,
        "reports": lambda: C + g() + [("ReportID", 1), u(0), I2, ("ReportID", 2), u(1), I2] + E,
        "nested": lambda: C + g() + [u(0), I2, u(50), ("Collection", 0), u(1), I2] + E + [u(2), I2] + E,
        "same physical": lambda: C + [("ReportSize", 8), ("ReportCount", 1), ("LogicalMinimum", 0), ("LogicalMaximum", sym("x", 65, 100)), ("PhysicalMinimum", 0), ("PhysicalMaximum", sym("y", 65, 100)), u(0), I2, u(1), I2] + E,
        "selector": lambda: C + g() + [("LogicalMinimum", 1), ("LogicalMaximum", 2), ("Usage", 0x200316), ("Collection", 2), u(0), u(1), ("Input", 0)] + E + [u(3), I2] + E,
        "known usages": lambda: [("UsagePage", 1), ("Usage", 2)] + C[1:] + g() + [("Usage", 0x30), I2, ("Usage", 0x90001), I2, ("Usage", 0x4242), I2] + E,
    }


def items(mk):
    return lambda: [it(n, v) for n, v in mk()]


def trees():
    look = lambda v: call(get("hrdc.usage:Usage.lookup"), v)
    R = get("hrdc.usage:UsageRange")
    us = lambda k: look(0x1000001 + k)
    v = lambda k=0, way="Input", **a: V(way, us(k), 8, **dict(dict(logicalMin=0, logicalMax=100), **a))
    C = get(D + "Collection")
    pad = lambda n, way="Input": call(get(D + "Padding"), attr(get(D + "Value"), way), n)
    al = lambda n, way="Input": call(get(D + "Align"), attr(get(D + "Value"), way), n)
    full = lambda: V("Input", us(0), 16, flags=6, logicalMin=sym("lmin", -1000, -600), logicalMax=sym("lmax", 600, 1000), physicalMin=sym("pmin", -4000, -2100),
                     physicalMax=sym("pmax", 2100, 4000), unit=sym("unit", 1 << 25, (1 << 26) - 1), unitExponent=sym("exp", 4, 7), designator=sym("d", 128, 255), string=sym("s", 128, 255), count=2)
    return {
        "one": lambda: top(v(logicalMax=sym("x", 128, 255))), "many": lambda: top(coll(v(0), v(1), v(2), usage=us(9))), "full": lambda: top(coll(full())),
        "array": lambda: top(coll(V("Input", None, 8, namedArray=lst(us(0), us(1), us(2))))),
        "selector": lambda: top(coll(V("Input", us(7), 8, namedArray=lst(us(0), us(3))))),
        "range": lambda: top(coll(V("Input", None, 8, count=2, namedArray=call(R, us(0), us(4))))),
        "known": lambda: top(coll(V("Input", look(0x10030), 8, logicalMin=-127, logicalMax=127), V("Input", 0x90001, 1, logicalMin=0, logicalMax=1), usage=look(0x10002))),
        "layout": lambda: top(coll(V("Input", us(0), 3, logicalMin=0, logicalMax=7), pad(5), al(32), v(1), V("Output", us(2), 1, logicalMin=0, logicalMax=1), al(8, "Output"))),
        "reports": lambda: top(coll(rep(1, v(0), v(1)), rep(2, v(2)), rep(1, v(3)))),
        "nested": lambda: top(coll(v(0), coll(v(1), v(2), kind=attr(C, "Physical"), usage=us(8)), v(3)), coll(v(4))),
        "constants": lambda: top(coll(V("Input", None, 8, flags=3), V("Input", None, 8, flags=3), v(0))),
        "empty": lambda: top(), "directions": lambda: top(v(0), v(1, "Output"), v(2, "Feature")),
        "same value twice": lambda: (lambda x: top(coll(x, x), x))(v()),
        "units": lambda: top(V("Input", us(0), 8, logicalMin=0, logicalMax=1, unit=attr(get(D + "Unit"), "Centimeter"), flags=attr(get(D + "Value"), "Relative"))),
    }


D = "hrdc.descriptor:"
ITEM_OPS = {"optimize": (op_optimize, "hrdc/stream/optimizer/"), "binary": (op_format("Binary"), "hrdc/stream/formatter/binary.py"),
            "hex": (op_format("Hex"), "hrdc/stream/formatter/hex.py"), "code": (op_format("Code"), "hrdc/stream/formatter/code.py"),
            "extract": (op_extract, "hrdc/descriptor/extractor.py"), "encode": (op_encode, "hrdc/stream/item.py")}
TREE_OPS = {"compile": (op_compile, "hrdc/descriptor/streamer.py"), "compile and optimize": (op_compile_opt, "hrdc/stream/optimizer/"),
            "dump": (op_dump, "hrdc/descriptor/dumper.py"), "visit": (op_visit, "hrdc/descriptor/descriptor.py")}


def t_items(name):
    op, where = ITEM_OPS[name]

    def run(ctx):
        ss = streams()
        names = list(ss)
        for i, n in enumerate(names):
            alone(ctx, "%s %s" % (name, n), op, items(ss[n]), where)
            for o in (names[(i + 1) % len(names)], names[(i + 5) % len(names)], n):
                alone(ctx, "%s %s beside %s" % (name, n, o), op, items(ss[n]), where, False, (op, items(ss[o])))
    return run


def t_trees(name):
    op, where = TREE_OPS[name]

    def run(ctx):
        ts = trees()
        names = list(ts)
        for i, n in enumerate(names):
            alone(ctx, "%s %s" % (name, n), op, ts[n], where)
            for o in (names[(i + 1) % len(names)], names[(i + 5) % len(names)], n):
                alone(ctx, "%s %s beside %s" % (name, n, o), op, ts[n], where, False, (op, ts[o]))
    return run


def t_shared_tree(ctx):
    """All operations on one tree, and on the items compiled from it."""
    ts = trees()
    for n, mk in ts.items():
        for a, b in itertools.permutations(TREE_OPS, 2):
            def op(tree, a=a, b=b):
                finish(TREE_OPS[b][0](tree))
                yield None
                yield finish(TREE_OPS[a][0](tree))

            def solo(tree, a=a):
                yield finish(TREE_OPS[a][0](tree))

            def fn():
                t = mk()
                r = finish(TREE_OPS[a][0](t))
                finish(TREE_OPS[b][0](t))
                return r, finish(TREE_OPS[a][0](t))

            def judge(k, r):
                if k == "exc":
                    ctx.bad("the operation succeeds", "%s, then %s: %s" % (a, b, lib.exc_str(r)), r.where, n)
                    return
                ctx.req(equal(*r), "other operations in between do not matter", lambda: "%s of tree %s after %s: %s" % (a, n, b, differ(*r)), TREE_OPS[a][1], n)
            ctx.explore("%s, %s, %s" % (a, b, a), fn, judge)


def t_shared_items(ctx):
    ss = streams()
    for n, mk in ss.items():
        for a, b in itertools.permutations(ITEM_OPS, 2):
            def fn():
                t = items(mk)()
                r = finish(ITEM_OPS[a][0](t))
                finish(ITEM_OPS[b][0](t))
                return r, finish(ITEM_OPS[a][0](t))

            def judge(k, r):
                if k == "exc":
                    ctx.bad("the operation succeeds", "%s, then %s: %s" % (a, b, lib.exc_str(r)), r.where, n)
                    return
                ctx.req(equal(*r), "other operations in between do not matter", lambda: "%s of items %s after %s: %s" % (a, n, b, differ(*r)), ITEM_OPS[a][1], n)
            ctx.explore("%s, %s, %s" % (a, b, a), fn, judge)


def t_parse(form):
    op, where = op_parse(form), "hrdc/stream/parser/%s.py" % form.lower()

    def content(k):
        a, b = sym("a", 0, 255), sym("b", 0, 255)
        us = [[0x05, 0x01, 0x09, 0x02, 0xa1, 0x01, 0x75, a, 0x95, b, 0x81, 0x02, 0xc0],
              [0x06, a, 0xff, 0x0a, b, 0x01, 0xa1, 0x00, 0x15, a, 0x26, 0xff, 0x00, 0x81, 0x06, 0xc0],
              [0x05, 0x42, 0x09, 0x99, 0xa1, 0x01, 0x0b, 0x01, 0x00, 0x43, 0x00, 0xa4, 0xb4, 0x81, 0x03, 0xc0]][k]
        if form == "Binary":
            return mkbytes(us)
        ps = []
        for j, x in enumerate(us):
            x = "%02x" % x if isinstance(x, int) else hexb(x)
            ps += ["0x" if form == "Code" else "", x, ", " if form == "Code" else " ", "// c\n" if form == "Code" and j % 5 == 4 else ""]
        return mkstr(ps)

    def run(ctx):
        for k in range(3):
            alone(ctx, "parse %s %d" % (form, k), op, lambda: content(k), where)
            for o in range(3):
                alone(ctx, "parse %s %d beside %d" % (form, k, o), op, lambda: content(k), where, False, (op, lambda: content(o)))
    return run


def t_lookup(ctx):
    """Looking up, splitting and ranges never change anything."""
    look = lambda v: call(get("hrdc.usage:Usage.lookup"), v)

    def op(v):
        u = look(v)
        r = [int_of(u)] + [int_of(x) for x in I.iterate_list(m(u, "split"))]
        yield r
    for dom in ((0, 0xffff), (0x1000000, 0xfeffffff)):
        alone(ctx, "look up any usage in %s" % (dom,), op, lambda: sym("u", *dom), "hrdc/usage/usage.py")
    for v in (0x10030, 0x90001, 0x94242, 0x70004, 0x1ffff, 0, 0x30):
        alone(ctx, "look up %#x" % v, op, lambda: v, "hrdc/usage/usage.py")

    def op2(v):
        r = call(get("hrdc.usage:UsageRange"), v, add(v, 2))
        yield [int_of(x) for x in I.iterate_list(r)] + [int_of(I.getitem(r, 1)) if hasattr(I, "getitem") else 0]
    alone(ctx, "iterate a range", op2, lambda: sym("u", 0x1000000, 0xfeffff00), "hrdc/usage/usage.py")

    def op3(k):
        p = call(get("hrdc.usage:Usage.page"), k)
        yield [int_of(p)]
    for k in (1, 9, 0x42, 0xff00):
        alone(ctx, "page %#x" % k, op3, lambda: k, "hrdc/usage/usage.py")


def t_define(ctx):
    """Defining a usage changes the registry and nothing else."""
    Us = get("hrdc.usage:Usage")
    for dom in ((0x1000000, 0xfeffffff),):
        def fn():
            v = sym("u", *dom)
            reg = attr(Us, "reverse")
            with Watch() as wt:
                u = call(Us, "mine.Thing", v)
            ch = wt.changed()
            return v, u, [(o, owner(o, roots([])), line) for o, s, t, line in ch], reg, call(get("hrdc.usage:Usage.lookup"), v)

        def judge(k, r):
            if k == "exc":
                ctx.bad("a usage can be defined", lib.exc_str(r), r.where, "Usage")
                return
            v, u, ch, reg, back = r
            oth = [x for x in ch if x[0] is not reg]
            ctx.req(not oth, "only the registry changes", lambda: "defining a usage modifies %s at %s" % (oth[0][1], loc(oth[0][2])), "hrdc/usage/usage.py", "Usage")
            ctx.req(same(int_of(back), v), "the defined usage is found", lambda: "lookup gives %s" % show(back), "hrdc/usage/usage.py", "Usage")
        ctx.explore("define a usage", fn, judge)

        def fn2():
            v = sym("u", *dom)
            with Watch() as wt:
                call(Us, "mine.Thing", v, register=False)
            return [(o, owner(o, roots([])), line) for o, s, t, line in wt.changed()]

        def judge2(k, r):
            if k == "exc":
                ctx.bad("a usage can be built", lib.exc_str(r), r.where, "Usage")
                return
            ctx.req(not r, "a usage built without registering changes nothing", lambda: "%s modified at %s" % (r[0][1], loc(r[0][2])), "hrdc/usage/usage.py", "Usage")
        ctx.explore("build a usage", fn2, judge2)


def t_build(ctx):
    """Building elements and items leaves their arguments and all defaults alone."""
    look = lambda v: call(get("hrdc.usage:Usage.lookup"), v)

    def op(args):
        na = args[0]
        v = V("Input", args[1], 8, namedArray=na)
        c = coll(v, usage=args[1])
        m(c, "append", v)
        t = top(c)
        m(t, "append", c)
        t2 = top()
        yield [len(I.iterate_list(t)), len(I.iterate_list(c)), len(I.iterate_list(t2)), len(I.iterate_list(rep(1))), len(I.iterate_list(coll()))]
    alone(ctx, "build a tree", op, lambda: [lst(look(0x1000001), look(0x1000002)), look(0x1000009)], "hrdc/descriptor/descriptor.py")

    def opi(args):
        yield [hid.named(it(n, args[0] if n not in spec.NO_VALUE else 0)) for n in spec.ITEMS]
    for x in (0, 1, 3, 0x11, 0x102):
        alone(ctx, "build items", opi, lambda: [x], "hrdc/stream/item.py")


def tasks(tier):
    for n in ITEM_OPS:
        yield "items." + n, t_items(n)
    for n in TREE_OPS:
        yield "trees." + n.replace(" ", "_"), t_trees(n)
    yield "shared.tree", t_shared_tree
    yield "shared.items", t_shared_items
    for f in ("Binary", "Hex", "Code"):
        yield "parse." + f, t_parse(f)
    yield "lookup", t_lookup
    yield "define", t_define
    yield "build", t_build
