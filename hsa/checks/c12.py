"""C12: a dumped script rebuilds the same descriptor."""
import itertools
import re
from .codec import *
from ..lib import lst, eqv, add, sub, Infeasible, mkstr, B, AList
from ..engine import strings
from ..engine.objs import Hole
from .. import hid
from .c07 import it, S31
uobj = lambda v: call(get("hrdc.usage:Usage.lookup"), v)
from .c13 import TABLE

RULE = ("The dumper analysed on trees with abstract attributes gives a source text with a hole for every abstract number.  The text is parsed, "
        "each hole standing for its number, and the resulting script is analysed in turn by the same abstract interpreter; the tree it builds "
        "must have the structure and the value numbers of the dumped tree.")
BOUNDS = ("trees of up to 4 values and 4 levels; every attribute over its whole range, one group of attributes at a time; flags: all 512 "
          "combinations; units and usages of the library complete")
MIN_OBLIGATIONS = {"quick": 3000}
WH = "hrdc/descriptor/dumper.py"
D = "hrdc.descriptor:"


class Broken(Exception):
    pass


def dump(tree):
    f = B.mkfile("out.py", "w")
    m(tree, "accept", call(get("hrdc.descriptor.dumper:Dumper"), f))
    return mkstr(list(f.h["out"].v))


WORD = re.compile(r"[0-9A-Za-z_]*$"), re.compile(r"^[0-9A-Za-z_]*")


def source(text):
    """Python source with a name for every number that has a hole."""
    ps = list(strings.parts_of(strings.renorm(text)))
    ns = {}
    out = ""
    i = 0
    while i < len(ps):
        p = ps[i]
        if isinstance(p, str):
            out += p
            i += 1
            continue
        # the whole token around the hole
        left = WORD[0].search(out).group()
        out = out[:len(out) - len(left)]
        tok = [left, p]
        i += 1
        while i < len(ps):
            if isinstance(ps[i], Hole):
                tok.append(ps[i])
                i += 1
                continue
            r = WORD[1].match(ps[i]).group()
            tok.append(r)
            ps[i] = ps[i][len(r):]
            if ps[i]:
                break
            i += 1
        n = "_number_%d" % len(ns)
        t = mkstr([x for x in tok if x != ""])
        base = 16 if left[:2] in ("0x", "0X") else 0
        try:
            ns[n] = strings.parse_int(t, base)
        except ValueError:
            raise Broken("%r is not a number" % (t,))
        out += n
    return out, ns


def rebuild(text):
    src, ns = source(text)
    try:
        return attr(lib.script(src, "hsa_dumped", ns), "descriptor")
    except SyntaxError as e:
        raise Broken("not Python: %s in %r" % (e, src.split("\n")[(e.lineno or 1) - 1].strip()))


KINDS = ("Align", "Padding", "Value", "Report", "Collection", "TopLevel")


def kind_of(elem):
    for n in KINDS:
        if get(D + n) in getattr(elem, "cls", None).mro:
            return n


def num_(v):
    """Attribute as a number; None stays."""
    return None if v is None else int_of(v)


def tree(elem, path, out):
    """(path, attribute, value) of every element; partitions."""
    k = kind_of(elem)
    if k in ("TopLevel", "Report", "Collection"):
        ms = I.iterate_list(elem)
        out.append((path, k, len(ms)))
        if k == "Report":
            out.append((path, "id", num_(attr(elem, "id"))))
        if k == "Collection":
            out.append((path, "kind", num_(attr(elem, "kind"))))
            out.append((path, "usage", num_(attr(elem, "usage"))))
        for i, x in enumerate(ms):
            tree(x, "%s/%d" % (path, i), out)
        return out
    out.append((path, k, 0))
    at = lambda n: num_(attr(elem, n))
    out.append((path, "way", at("way")))
    if k == "Align":
        out.append((path, "boundary", at("boundary")))
        return out
    for n in ("size", "alignment", "count"):
        out.append((path, n, at(n)))
    fl = at("flags")
    out.append((path, "flags", fl))
    if k == "Padding":
        return out
    u = at("usage")
    out.append((path, "usage", 0 if u is None else u))
    for n in ("logicalMin", "logicalMax", "unit", "unitExponent", "designator", "string"):
        out.append((path, n, at(n)))
    na = attr(elem, "namedArray")
    us = [] if na is None else [num_(x) for x in I.iterate_list(na)]
    out.append((path, "length of the named array", len(us)))
    out += [(path, "named array usage %d" % i, x) for i, x in enumerate(us)]
    if not us:
        out.append((path, "physicalMin", at("physicalMin")))
        out.append((path, "physicalMax", at("physicalMax")))
    return out


def check(ctx, what, mk, limit=20000):
    turn = ctx.turn()

    def fn():
        TURN[0] = turn
        t = mk()
        want = tree(t, "", [])
        s = dump(t)
        try:
            r = rebuild(s)
            got = tree(r, "", [])
        except Broken as e:
            return s, None, str(e)
        except lib.PyExc as e:
            return s, None, lib.exc_str(e)
        return s, want, got

    def judge(k, r):
        if k == "exc":
            ctx.bad("every tree can be dumped", "%s: %s" % (what, lib.exc_str(r)), r.where, what)
            return
        s, want, got = r
        inp = lambda: repr(s)[:1200]
        if not ctx.req(want is not None, "the script is valid", lambda: "%s: %s" % (what, got), WH, inp):
            return
        if not ctx.req([x[:2] for x in want] == [x[:2] for x in got], "same structure",
                       lambda: "%s: %s" % (what, diff([x[:2] for x in want], [x[:2] for x in got])), WH, inp):
            return
        for (p, n, a), (_, _, b) in zip(want, got):
            ok = a is None and b is None if a is None or b is None else same(a, b)
            if not ctx.req(ok, "same attributes", lambda: "%s: %s of element %s is %s, was %s" % (what, n, p or "/", show(b), show(a)), WH, inp):
                break
    ctx.explore(what, fn, judge, limit)


def diff(a, b):
    for x, y in itertools.zip_longest(a, b):
        if x != y:
            return "%s instead of %s" % (y, x)


def V(way, usage, size, **kw):
    c = get(D + "Value")
    return I.call(c, [facing(way), usage, size], kw)


def coll(*x, kind=None, usage=None):
    C = get(D + "Collection")
    return I.call(C, [attr(C, "Application") if kind is None else kind, usage] + list(x), {})


def top(*x):
    return I.call(get(D + "TopLevel"), list(x), {})


def rep(i, *x):
    return I.call(get(D + "Report"), [i] + list(x), {})


U = lambda n="u": sym(n, 0x1000000, 0xfeff0000)
ATTRS = {
    "logicalMin": S31, "logicalMax": S31, "physicalMin": S31, "physicalMax": S31, "unit": (0, U32), "unitExponent": S31,
    "designator": (0, U32), "string": (0, U32), "count": (0, 1 << 32), "alignment": (0, 1 << 16), "flags": (0, 0x1ff),
}
GIVEN = dict(logicalMin=(-1000, -1), logicalMax=(1, 1000), physicalMin=(-5000, -2000), physicalMax=(2000, 5000), unit=(1 << 25, U32),
             unitExponent=(1, 7), designator=(1, 255), string=(1, 255), count=(2, 1 << 16), alignment=(9, 64))
PAIRS = [("logicalMin", "logicalMax"), ("physicalMin", "physicalMax"), ("logicalMin", "physicalMin"), ("logicalMax", "physicalMax"),
         ("unit", "unitExponent"), ("designator", "string"), ("count", "alignment"), ("flags", "logicalMin"), ("flags", "unit")]


def t_attr(n):
    """Attribute n over its whole range, the others given or left out."""
    def run(ctx):
        for way in ("Input", "Output", "Feature"):
            for u in (None, 0, "obj", "int"):
                us = U() if u == "int" else uobj(U()) if u == "obj" else u
                for rest in (False, True):
                    a = {k: sym(k, *GIVEN[k]) for k in GIVEN} if rest else dict(logicalMin=0, logicalMax=1)
                    a[n] = sym(n, *ATTRS[n]) if n != "flags" else 6
                    check(ctx, "%s, any %s, usage %s%s" % (way, n, u, ", all given" if rest else ""), lambda: top(coll(V(way, us, sym("size", 0, U32), **a))))
    return run


def t_pair(p):
    def run(ctx):
        for sz in (8, 1):
            for base in (dict(logicalMin=0, logicalMax=1), dict(logicalMax=5)):
                a = dict(base)
                for n in p:
                    a[n] = sym(n, *ATTRS[n]) if n != "flags" else 0x102
                check(ctx, "any %s and %s" % p, lambda: top(V("Input", uobj(U()), sz, **a)))
    return run


def t_ranges(ctx):
    """Bounds left out or abstract."""
    for giv in itertools.product((0, 1, 2), repeat=4):
        for fl in (2, 3):
            a = {}
            for n, g in zip(("logicalMin", "logicalMax", "physicalMin", "physicalMax"), giv):
                if g == 1:
                    a[n] = sym(n, -3, 3)
                elif g == 2:
                    a[n] = None
            if fl == 2 and (giv[1] != 1 or giv[0] == 2):
                continue
            check(ctx, "bounds given %s, flags %d" % (giv, fl), lambda: top(V("Input", uobj(U()), 8, flags=fl, **a)))


def t_flags(ctx):
    Vc = get(D + "Value")
    for f in range(512):
        for c in ([2] if f % 16 else [1, 2, 3]):
            check(ctx, "flags %#x" % f, lambda: top(V("Input", uobj(0x1000002), 8, flags=f, logicalMin=0, logicalMax=1, count=c)))
    f = sym("flags", 512, U32)
    check(ctx, "reserved flags", lambda: top(V("Input", uobj(0x1000002), 8, flags=f, logicalMin=0, logicalMax=1)))
    for n in spec.FLAGS:
        check(ctx, "flags %s" % n, lambda: top(V("Output", None, 8, flags=attr(Vc, n), logicalMin=0, logicalMax=1)))
    for a, b in itertools.combinations(spec.FLAG_NAMES, 2):
        check(ctx, "flags %s|%s" % (a, b), lambda: top(V("Output", None, 8, flags=I.arith("|", attr(Vc, a), attr(Vc, b)), logicalMin=0, logicalMax=1)))


def t_units(ctx):
    Un = get(D + "Unit")
    for n in spec.UNITS:
        check(ctx, "unit %s" % n, lambda: top(V("Input", None, 8, unit=attr(Un, n), logicalMin=0, logicalMax=1)))
    for n in spec.NIBBLES:
        for e in (-8, -1, 1, 7):
            check(ctx, "unit %s(%d)" % (n, e), lambda: top(V("Input", None, 8, unit=I.arith("|", attr(Un, "SILinear"), m(Un, n, e)), logicalMin=0, logicalMax=1)))
    check(ctx, "any unit", lambda: top(V("Input", None, 8, unit=sym("unit", 0, U32), logicalMin=0, logicalMax=1)))


def known(part, of):
    ids = [(mo, i, c) for mo, t in sorted(TABLE.items()) for i, c in sorted(t.items()) if mo not in ("arcade", "hrdc.usage.arcade")]
    return ids[part::of]


def t_known(part):
    """Every usage constant of the library, everywhere a usage can stand."""
    def run(ctx):
        l = known(part, 8)
        seen = set()
        for k in range(0, len(l), 24):
            chunk = l[k:k + 24]

            def mk():
                us = [call(get("hrdc.usage:Usage.lookup"), c) for _, _, c in chunk]
                return top(*[coll(V("Input", u, 8, logicalMin=0, logicalMax=1), usage=u) for u in us],
                           V("Input", None, 8, logicalMin=0, namedArray=lst(*us)))
            check(ctx, "known usages from %s.%s" % chunk[0][:2], mk)

            def mk():
                us = [c for _, _, c in chunk]
                return top(*[coll(V("Input", u, 8, logicalMin=0, logicalMax=1), usage=u) for u in us],
                           V("Input", us[0], 8, logicalMin=0, namedArray=lst(*us)))
            check(ctx, "known usages by number from %s.%s" % chunk[0][:2], mk)
        ctx.notes["usages"] = len(l)
    return run


def t_usages(ctx):
    R = get("hrdc.usage:UsageRange")
    look = lambda v: call(get("hrdc.usage:Usage.lookup"), v)
    val = lambda u: V("Input", u, 8, logicalMin=0, logicalMax=1)
    for what, dom in (("page 0", (0, 0xffff)), ("unknown page", (0x1000000, 0xfeffffff)), ("last pages", (0xff800000, U32))):
        check(ctx, "usage number, %s" % what, lambda: top(coll(val(sym("u", *dom)), usage=sym("c", *dom))))
        check(ctx, "usage looked up, %s" % what, lambda: top(coll(val(look(sym("u", *dom))), usage=look(sym("c", *dom)))))
        for n in (1, 2, 3):
            for u in (None, look(0x10030)):
                check(ctx, "named array of %d, %s" % (n, what), lambda: top(V("Input", u, 8, logicalMin=sym("l", *S31), namedArray=lst(*[look(sym("u%d" % i, *dom)) for i in range(n)]))))
                check(ctx, "named array of %d numbers, %s" % (n, what), lambda: top(V("Input", u, 8, logicalMin=sym("l", *S31), namedArray=lst(*[sym("u%d" % i, *dom) for i in range(n)]))))
                check(ctx, "named array with attributes of %d, %s" % (n, what),
                      lambda: top(V("Input", u, 8, unit=sym("unit", 1 << 25, U32), unitExponent=sym("e", 1, 7), designator=sym("d", 1, 255), string=sym("s", 1, 255), count=sym("n", 2, 255),
                                    namedArray=lst(*[sym("u%d" % i, *dom) for i in range(n)])), V("Input", u, 4, logicalMax=3)))
                a = sym("u", dom[0], dom[1] - 4)
                for f in ((lambda v: v), look):
                    check(ctx, "range of %d, %s" % (n, what), lambda: top(V("Input", u, 8, logicalMin=sym("l", *S31), namedArray=call(R, f(a), f(add(a, n - 1))))))
    for a, b in ((0x70000, 0x70065), (0x90001, 0x90010), (0x10030, 0x10032), (0x7fffe, 0x80001), (0x700e0, 0x700e7)):
        for f in ((lambda v: v), look):
            check(ctx, "range %#x to %#x" % (a, b), lambda: top(V("Input", None, 8, logicalMin=0, namedArray=call(R, f(a), f(b)))))
    check(ctx, "empty named array", lambda: top(V("Input", None, 8, logicalMin=0, logicalMax=3, namedArray=lst())))
    check(ctx, "mixed named array", lambda: top(V("Input", None, 8, logicalMin=0, namedArray=lst(look(0x10030), 0x10031, sym("u", 0x1000000, 0xfe000000), look(0x90001)))))


def t_structure(ctx):
    v = lambda t="", way="Input": V(way, uobj(U("u" + t)), sym("s" + t, 0, 64), logicalMin=0, logicalMax=sym("x" + t, 2, 255))
    C = get(D + "Collection")
    pad = lambda n="p", way="Input": call(get(D + "Padding"), facing(way), sym(n, 0, U32))
    al = lambda n="a", way="Input": call(get(D + "Align"), facing(way), sym(n, 0, U32))
    cases = {
        "empty": lambda: top(), "one": lambda: top(v()), "collection as root": lambda: coll(v()), "report as root": lambda: rep(sym("r", 0, 255), v()),
        "empty collection": lambda: top(coll()), "empty collection as root": lambda: coll(usage=0), "empty report": lambda: top(rep(1)),
        "padding": lambda: top(pad()), "alignment": lambda: top(al()), "padding in output": lambda: top(coll(pad(way="Output"), al(way="Feature"))),
        "nested": lambda: top(coll(v("1"), coll(coll(v("2")), v("3"), coll()), v("4")), v("5")),
        "reports": lambda: top(coll(rep(sym("r", 0, 255), v("1"), v("2")), rep(sym("q", 0, 255), v("3"), pad(), coll(v("4"))))),
        "collections in reports": lambda: top(rep(sym("r", 0, 255), coll(v("1")), coll(v("2"))), rep(3, al())),
        "top level inside": lambda: top(top(v()), v("2")),
        "usage zero": lambda: top(coll(v(), usage=0)), "no usage": lambda: top(coll(v(), usage=None)),
        "usage": lambda: top(coll(v(), usage=uobj(U("c")))),
        "constant": lambda: top(V("Input", None, 8, flags=3), V("Output", None, sym("s", 0, 64), flags=1)),
        "constant with bounds": lambda: top(V("Input", uobj(U()), 8, flags=3, logicalMin=sym("l", *S31), logicalMax=sym("h", *S31))),
        "directions": lambda: top(v("1"), v("2", "Output"), v("3", "Feature")),
    }
    for n, mk in cases.items():
        check(ctx, n, mk)
    for n in spec.COLLECTIONS:
        check(ctx, "%s collection" % n, lambda: top(coll(v(), kind=attr(C, n))))
    check(ctx, "any collection kind", lambda: top(coll(v(), kind=sym("kind", 0, U32))))
    for a, b in itertools.product(range(3), repeat=2):
        # depths of nesting and what comes after
        def mk():
            x = v("1")
            for i in range(a):
                x = coll(x, usage=uobj(U("c%d" % i)))
            y = v("2")
            for i in range(b):
                y = rep(i + 1, y)
            return top(x, y, v("3"))
        check(ctx, "depth %d and %d" % (a, b), mk)


def t_large(ctx):
    R = get("hrdc.usage:UsageRange")
    n, d = 300, 40

    def deep():
        x = V("Input", uobj(0x10030), 8, logicalMin=0, logicalMax=1)
        for i in range(d):
            x = coll(x, V("Output", uobj(0x90001 + i), i + 1, logicalMin=-i - 1, logicalMax=i, designator=i), usage=uobj(0x10030 + i)) if i % 4 else rep(i + 1, x)
        return top(x)
    check(ctx, "%d levels" % d, deep)
    check(ctx, "%d values" % n, lambda: top(coll(*[V("Input", uobj(0x90001 + i), 1 + i % 32, logicalMin=-i, logicalMax=i + 1, string=i) for i in range(n)])))
    check(ctx, "named array of %d" % n, lambda: top(coll(V("Input", None, 9, namedArray=lst(*[uobj(0x90001 + 2 * i) for i in range(n)])), V("Input", uobj(0x10030), 8, logicalMin=0, logicalMax=1))))
    check(ctx, "named range of 60", lambda: top(coll(V("Input", uobj(0x10030), 16, namedArray=call(R, uobj(0x90001), uobj(0x90001 + 59))))))
    check(ctx, "255 reports", lambda: top(coll(*[rep(i, V("Input", uobj(0x90001 + i), 8, logicalMin=0, logicalMax=i)) for i in range(1, 256)])))
    check(ctx, "%d empty containers" % n, lambda: top(*[[coll, lambda **k: rep(1), lambda **k: top()][i % 3](**({"usage": uobj(0x10030 + i)} if i % 3 == 0 else {})) for i in range(n)]))


def t_extracted(ctx):
    """Trees as the extractor leaves them."""
    def xt(items):
        x = call(get("hrdc.descriptor.extractor:Extractor"))
        for n, v in items:
            m(x, "append", it(n, v))
        return attr(x, "root")
    base = [("ReportSize", 8), ("ReportCount", 1), ("LogicalMaximum", 5)]
    wrap = lambda *x, kind=1: base + [("Usage", 0x10002), ("Collection", kind)] + list(x) + [("EndCollection", 0)]
    F = [("Usage", 0x10030), ("Input", 2)]
    for f in range(512):
        check(ctx, "extracted, flags %#x" % f, lambda: xt(wrap(("Usage", 0x10030), ("Input", f))))
    for f in (0x200, 0x202, 0x8003, 0x10006, 0x80000002, 0xfffffe00):
        check(ctx, "extracted, reserved flags %#x" % f, lambda: xt(wrap(("Usage", 0x10030), ("Input", f))))
    for n, u in spec.UNITS.items():
        check(ctx, "extracted, unit %s" % n, lambda: xt(wrap(("Unit", u), *F)))
    check(ctx, "extracted, any unit", lambda: xt(wrap(("Unit", sym("unit", 1 << 25, U32)), *F)))
    check(ctx, "extracted, any other unit", lambda: xt(wrap(("Unit", sym("unit", 0, 0x20)), *F)))
    for k in range(8):
        check(ctx, "extracted, kind %d" % k, lambda: xt(wrap(*F, kind=k)))
    check(ctx, "extracted, any kind", lambda: xt(wrap(*F, kind=sym("kind", 7, U32))))
    for n in ("LogicalMinimum", "LogicalMaximum", "PhysicalMinimum", "PhysicalMaximum", "UnitExponent"):
        check(ctx, "extracted, any %s" % n, lambda: xt(wrap((n, sym("v", *S31)), *F)))
    check(ctx, "extracted, any id", lambda: xt(wrap(("ReportID", sym("v", 1, 255)), *F)))
    check(ctx, "extracted, array", lambda: xt(wrap(("LogicalMinimum", 4), ("Usage", 0x70004), ("Usage", 0x70005), ("ReportCount", 3), ("Input", 0))))
    check(ctx, "extracted, array of usages apart", lambda: xt(wrap(("LogicalMinimum", 4), ("Usage", 0x70004), ("Usage", 0x70009), ("ReportCount", 3), ("Input", 0))))
    check(ctx, "extracted, selector", lambda: xt(wrap(("LogicalMinimum", 4), ("Usage", 0x200316), ("Collection", 2), ("Usage", 0x70004), ("Usage", 0x70009), ("Input", 0), ("EndCollection", 0))))
    check(ctx, "extracted, locals", lambda: xt(wrap(("DesignatorIndex", sym("d", 0, U32)), ("StringIndex", sym("s", 0, U32)), ("Usage", uobj(U())), ("Feature", 0x102), ("Input", 3))))


def tasks(tier):
    for n in ATTRS:
        yield "attribute.%s" % n, t_attr(n)
    for p in PAIRS:
        yield "pair.%s.%s" % p, t_pair(p)
    yield "ranges", t_ranges
    yield "flags", t_flags
    yield "units", t_units
    yield "usages", t_usages
    for i in range(8):
        yield "known.%d" % i, t_known(i)
    yield "structure", t_structure
    yield "large", t_large
    yield "extracted", t_extracted
