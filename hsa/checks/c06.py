"""C06: code listings annotate every item truthfully."""
import itertools
from .codec import *
from ..lib import mkstr, mkbytes, B, AStr, exc_str, lst
from ..engine import strings
from .c05 import FMT, PRS, mkitem, usage, tokens, bytes_of
from .c04 import val, raw
from .c13 import TABLE, PAGES, NUMBERED

RULE = ("The code formatter analysed on items of every kind with abstract values and on every nesting pattern: each item gives one line, "
        "the part before // holds its bytes, the comment is the item's name and value at four blanks per open collection.  Known flags, "
        "collection kinds, units, pages and usages must appear under the names of the reference tables, on the partitions where the "
        "value has such a name; closing warns exactly when the collections are unbalanced.")
BOUNDS = "flags: all 512 combinations; units, kinds, pages and usages complete; nesting patterns complete up to 7 items (thorough: 9)"
MIN_OBLIGATIONS = {"quick": 8000}
WH = "hrdc/stream/formatter/code.py"
PAGE_NAMES = {0x1: "GenericDesktop", 0x2: "Simulation", 0x3: "VR", 0x5: "Game", 0x6: "Device", 0x7: "Keyboard", 0x8: "Led", 0x9: "Button",
              0xa: "Ordinal", 0xb: "TelephonyDevice", 0xc: "Consumer", 0xd: "Digitizers", 0xf: "PID", 0x20: "Sensors", 0x59: "Lighting",
              0x90: "Camera", 0xff00: "Arcade"}
MODULE = {v: k for k, v in PAGES.items()}
USUAL = {v: k for k, v in spec.UNITS.items() if k not in ("SILinear", "SIRotation", "EnglishLinear", "EnglishRotation")}
KINDS = {v: k for k, v in spec.COLLECTIONS.items()}


def listing(items, close=True):
    f = B.mkfile("out", "w")
    o = call(get(FMT + "Code"), f)
    for i in items:
        m(o, "append", i)
    before = len(B.WARNINGS.v)
    if close:
        m(o, "close")
    return mkstr(list(f.h["out"].v)), len(B.WARNINGS.v) - before


def lines(text):
    """(bytes, blanks, comment) of every line; None when there is no comment."""
    out = []
    ls = strings.method(text, "split", ["\n"], {})
    if ls and ls[-1] == "":
        ls = ls[:-1]
    for l in ls:
        a, sep, c = strings.method(l, "partition", ["//"], {})
        if not sep:
            out.append((l, None, None))
            continue
        ps = list(strings.parts_of(c))
        n = 0
        if ps and isinstance(ps[0], str):
            n = len(ps[0]) - len(ps[0].lstrip(" "))
            ps[0] = ps[0][n:]
        c = mkstr(ps)
        if isinstance(c, str):
            c = c.rstrip()
        out.append((a, n, c))
    return out


def hexbytes(left):
    left = strings.method(left, "replace", [",", " "], {})
    return [strings.parse_int(t, 16) for t in strings.method(left, "split", [], {})]


def number(v):
    """Accepted spellings of a number."""
    if isinstance(v, int):
        return [str(v), hex(v)]
    v = w.store.norm(v)
    if isinstance(v, int):
        return [str(v), hex(v)]
    return [mkstr([strings.fmt_hole("str", v)]), mkstr([strings.fmt_hole("hex()", v)]), mkstr(["0x", strings.fmt_hole("%x", v)])]


def comment_ok(c, name, values, bare):
    """c is 'Name (value)' for one of the values, or the bare name."""
    c = strings.renorm(c)
    if bare and c == name:
        return True
    for v in values:
        if c == strings.renorm(mkstr([name, " (", v, ")"])):
            return True
    return False


BASE = [None]


def base_indent():
    if BASE[0] is None:
        t, _ = listing([mkitem("ReportSize", 1)])
        BASE[0] = lines(t)[0][1]
    return BASE[0]


def judge_listing(ctx, what, items, text, want):
    """want: per item (name, value spellings or None for any, bare allowed, depth)"""
    inp = lambda: "%s: %s" % (what, show(items))
    ls = lines(text)
    if not ctx.req(len(ls) == len(want), "one line per item", lambda: "%s: %d lines for %d items: %r" % (what, len(ls), len(want), text), WH, inp):
        return
    for (left, ind, c), i, (name, vals, bare, depth) in zip(ls, items, want):
        if not ctx.req(c is not None, "every line has a comment", lambda: "%s: %r" % (what, left), WH, inp):
            continue
        got, exp = hexbytes(left), list(I.units(m(i, "bytes")))
        ctx.req(len(got) == len(exp) and all(same(a, b) for a, b in zip(got, exp)), "the line holds the item's bytes",
                lambda: "%s: %r for %s" % (what, left, show(exp)), WH, inp)
        ctx.req(ind == BASE[0] + 4 * depth, "four blanks per open collection",
                lambda: "%s: %s is indented by %s, expected %s" % (what, name, ind, BASE[0] + 4 * depth), WH, inp)
        if vals is None:
            continue
        ctx.req(comment_ok(c, name, vals, bare), "the comment names the item and its value",
                lambda: "%s: comment %r, expected %s (%s)" % (what, c, name, " or ".join(map(str, vals))), "hrdc/stream/item.py", inp)


def check(ctx, what, mk, limit=20000):
    """mk() -> (items, want)"""
    def fn():
        base_indent()
        items, want = mk()
        text, warned = listing(items)
        return items, want, text, warned

    def judge(k, r):
        if k == "exc":
            ctx.bad("listing succeeds", "%s: %s" % (what, exc_str(r)), r.where, what)
            return
        items, want, text, warned = r
        judge_listing(ctx, what, items, text, want)
    ctx.explore(what, fn, judge, limit)


def t_numbers(ctx):
    for n, (kind, tag, signed) in spec.ITEMS.items():
        if n in spec.FLAG_ITEMS or n in ("Collection", "Unit", "UsagePage", "Usage", "UsageMinimum", "UsageMaximum"):
            continue
        if n in spec.NO_VALUE:
            check(ctx, n, lambda: ([mkitem("ReportID", 1), mkitem(n, 0)], [("ReportID", ["1"], False, 0), (n, ["0"], True, 0)]) if n != "EndCollection"
                  else ([mkitem("Collection", 1), mkitem(n, 0)], [("Collection", ["Application"], False, 0), (n, ["0"], True, 0)]))
            continue
        lo, hi = (-(1 << 31), (1 << 31) - 1) if signed else (0, U32)
        v = sym("v", lo, hi)
        check(ctx, n, lambda: ([mkitem(n, v)], [(n, number(v), False, 0)]))
        check(ctx, n + " zero", lambda: ([mkitem(n, 0)], [(n, number(0), False, 0)]))


def flag_texts(v):
    """All spellings of a flag value: the names of its bits in any order."""
    names = [f for i, f in enumerate(spec.FLAG_NAMES) if v >> i & 1]
    return names


def t_flags(name):
    zero = {k for k, x in spec.FLAGS.items() if x == 0}

    def run(ctx):
        for v in range(512):
            def fn():
                base_indent()
                i = mkitem(name, v)
                return [i], listing([i])[0]

            def judge(k, r):
                inp = "%s(%d)" % (name, v)
                if k == "exc":
                    ctx.bad("listing succeeds", "%s: %s" % (inp, exc_str(r)), r.where, inp)
                    return
                items, text = r
                judge_listing(ctx, inp, items, text, [(name, None, True, 0)])
                c = lines(text)[0][2]
                names = flag_texts(v)
                if v == 0 and c == name:
                    ctx.ok("flags under their names")
                    return
                ok = isinstance(c, str) and c.startswith(name + " (") and c.endswith(")")
                if ok:
                    parts = [x.strip() for x in c[len(name) + 2:-1].split("|")]
                    ok = sorted(x for x in parts if x not in zero) == sorted(names)
                    # a complementary name may only stand where its bit is clear
                    for a, b in (("Data", 1), ("Array", 2), ("Absolute", 4), ("NoWrap", 8), ("Linear", 16), ("PreferredState", 32), ("NoNullPosition", 64), ("NonVolatile", 128), ("BitField", 256)):
                        if a in parts and v & b:
                            ok = False
                ctx.req(ok, "flags under their names", lambda: "%s: comment %r, expected %s" % (inp, c, "|".join(names) or "none"), "hrdc/stream/item.py", inp)
            ctx.explore("flags", fn, judge)
        # reserved bits do not hide the defined ones
        for v in [(1 << k) + x for k in range(9, 32) for x in (0, 2, 7)] + [0xfffffe00, 0xffffffff, 0x8400, 0x10202]:
            def judge(k, r):
                inp = "%s(0x%x)" % (name, v)
                if k == "exc":
                    ctx.bad("listing succeeds", "%s: %s" % (inp, exc_str(r)), r.where, inp)
                    return
                c = lines(r[1])[0][2]
                got = None
                if isinstance(c, str) and c.startswith(name + " (") and c.endswith(")"):
                    got = 0
                    for x in c[len(name) + 2:-1].split("|"):
                        try:
                            got |= spec.FLAGS[x.strip()] if x.strip() in spec.FLAGS else int(x, 0)
                        except ValueError:
                            got = -1
                ctx.req(got == v and all(f in c for f in flag_texts(v & 511)), "flags under their names",
                        lambda: "%s: comment %r does not say the value" % (inp, c), "hrdc/stream/item.py", inp)
            ctx.explore("flags", lambda: ([], listing([mkitem(name, v)])[0]), judge)
    return run


def t_kinds(ctx):
    for v, n in KINDS.items():
        for depth in (0, 1):
            check(ctx, "collection %s" % n, lambda: ([mkitem("Collection", v), mkitem("EndCollection", 0)], [("Collection", [n], False, 0), ("EndCollection", ["0"], True, 0)]))
            check(ctx, "collection %s by name" % n, lambda: ([mkitem("Collection", get("hrdc.stream.item:Collection." + n))], [("Collection", [n], False, 0)]))
    v = sym("v", 7, U32)
    check(ctx, "vendor collection", lambda: ([mkitem("Collection", v)], [("Collection", number(v), False, 0)]))
    check(ctx, "collection 7", lambda: ([mkitem("Collection", 7)], [("Collection", number(7), False, 0)]))


def t_units(ctx):
    for v, n in USUAL.items():
        check(ctx, "unit %s" % n, lambda: ([mkitem("Unit", v)], [("Unit", [n], False, 0)]))
        check(ctx, "unit %s by name" % n, lambda: ([mkitem("Unit", get("hrdc.stream.item:Unit." + n))], [("Unit", [n], False, 0)]))
    for v in range(0, 0x1200):
        if v not in USUAL:
            check(ctx, "unit 0x%x" % v, lambda: ([mkitem("Unit", v)], [("Unit", number(v), False, 0)]))
    v = sym("v", 1 << 25, U32)
    check(ctx, "unit", lambda: ([mkitem("Unit", v)], [("Unit", number(v), False, 0)]))


def parse_list(units):
    """Binary text through the parser into the listing."""
    f = B.mkfile("in", "rb", mkbytes(units))
    s = lib.sink()
    p = call(get(PRS + "Binary"), f, s)
    m(p, "read")
    return list(attr(s, "items").v)


def page_texts(p):
    n = PAGE_NAMES.get(p)
    r = []
    if n:
        r += [n]
    if p in MODULE:
        r += [MODULE[p]]
    return r or number(p)


def t_pages(ctx):
    for p in list(PAGE_NAMES) + [0, 4, 0xe, 0x10, 0x14, 0x84, 0x85, 0xf1d0, 0xffff]:
        code = 1 if p < 256 else 2
        check(ctx, "page 0x%x from bytes" % p, lambda: (lambda it: (it, [("UsagePage", page_texts(p), False, 0)]))(parse_list(raw(1, 0, code, p))))
    v = sym("v", 0x100, 0xfeff)
    check(ctx, "unknown page", lambda: (lambda it: (it, [("UsagePage", number(v), False, 0)]))(parse_list(raw(1, 0, 2, v))))


def optimized(items):
    s = lib.sink()
    o = call(get("hrdc.stream.optimizer:Optimizer.new"), s)
    for i in items:
        m(o, "append", i)
    m(o, "close")
    return list(attr(s, "items").v)


def t_usages(mod):
    def run(ctx):
        if mod in NUMBERED:
            f, base = NUMBERED[mod]
            tab = {"%s(%d)" % (f, i): base + i for i in range(128)}
        else:
            tab = TABLE[mod]
            lib.mod("hrdc.usage." + mod)
        for ident, code in tab.items():
            texts = [mod + "." + ident, ident]
            pg, no = code >> 16, code & 0xffff
            known = ["%s.%s" % (PAGE_NAMES[pg], ident)] if pg in PAGE_NAMES else []
            for n in ("Usage", "UsageMinimum", "UsageMaximum"):
                check(ctx, "%s 0x%x" % (n, code), lambda: ([mkitem(n, code)], [(n, texts, False, 0)]))
                if n != "Usage" and len(tab) > 30 and no % 16:
                    continue
                t = spec.ITEMS[n][1]
                check(ctx, "%s 0x%x from bytes" % (n, code), lambda: (lambda it: (it, [("UsagePage", page_texts(pg), False, 0), (n, texts, False, 0)]))(
                    parse_list(raw(1, 0, 2, pg) + raw(2, t, 2, no))))
                check(ctx, "%s 0x%x from 4 bytes" % (n, code), lambda: (lambda it: (it, [(n, texts, False, 0)]))(parse_list(raw(2, t, 3, code))))
            if no % 8 == 0:
                def mk():
                    it = optimized([mkitem("ReportSize", 8), mkitem("ReportCount", 1), mkitem("Usage", code), mkitem("Input", 2)])
                    want = []
                    for i in it:
                        k = spec.BY_CODE[(int_of(attr(i, "kind")), int_of(attr(i, "tag")))]
                        want.append((k, page_texts(pg) if k == "UsagePage" else texts if k == "Usage" else None, False, 0))
                    return it, want
                check(ctx, "Usage 0x%x optimized" % code, mk)
        ctx.notes["usages"] = len(tab)
    return run


def t_unknown(ctx):
    u, p = sym("u", 0, 0xffff), sym("p", 0x100, 0xfeff)
    for n in ("Usage", "UsageMinimum", "UsageMaximum"):
        t = spec.ITEMS[n][1]
        full = lib.add(lib.mul(p, 65536), u)
        check(ctx, "unknown %s" % n, lambda: ([mkitem(n, full)], [(n, number(full), False, 0)]))
        check(ctx, "short %s" % n, lambda: ([mkitem(n, u)], [(n, number(u), False, 0)]))
        check(ctx, "unknown %s from bytes" % n, lambda: (lambda it: (it, [("UsagePage", number(p), False, 0), (n, number(u), False, 0)]))(
            parse_list(raw(1, 0, 2, p) + raw(2, t, 2, u))))
        for c in (0x10000, 0x10003, 0x1000a, 0x70fff, 0x9f000):
            check(ctx, "unknown %s 0x%x" % (n, c), lambda: ([mkitem(n, c)], [(n, number(c) if c & 0xf000 != 0xf000 else None, False, 0)]))
    # a user's own usage
    check(ctx, "own usage", lambda: ([mkitem("Usage", usage("mine.Own", 0xff010001))], [("Usage", ["mine.Own"], False, 0)]))


def t_nest(first, tier):
    al = ["Collection", "EndCollection", "Input", "ReportSize"]
    n = 7 if tier == "quick" else 9

    def run(ctx):
        for l in range(0, n):
            for rest in itertools.product(al[:3] if l > 4 else al, repeat=l):
                seq = [first] + list(rest)
                d = 0
                want = []
                for s in seq:
                    if s == "EndCollection":
                        d -= 1
                    if d < 0:
                        break
                    want.append((s, None, True, d))
                    if s == "Collection":
                        d += 1
                if d < 0:
                    continue

                def fn():
                    base_indent()
                    items = [mkitem(s, {"Collection": 1, "Input": 2, "ReportSize": 8}.get(s)) for s in seq]
                    text, warned = listing(items)
                    return items, text, warned

                def judge(k, r):
                    what = " ".join(seq)
                    if k == "exc":
                        ctx.bad("listing succeeds", "%s: %s" % (what, exc_str(r)), r.where, what)
                        return
                    items, text, warned = r
                    judge_listing(ctx, what, items, text, want)
                    ctx.req((warned > 0) == (d != 0), "closing warns exactly when collections are unbalanced",
                            lambda: "%s: %d open collections, %d warnings" % (what, d, warned), WH, what)
                ctx.explore("nesting", fn, judge)
    return run


def t_deep(ctx):
    for depth in (8, 20, 40):
        for missing in (0, 1, 3):
            def fn():
                base_indent()
                items = []
                for i in range(depth):
                    items += [mkitem("Collection", i % 8), mkitem("ReportSize", i)]
                for i in range(depth - missing):
                    items += [mkitem("EndCollection", 0), mkitem("ReportCount", i)]
                t, warned = listing(items)
                return items, t, warned

            def judge(k, r):
                what = "%d nested collections, %d left open" % (depth, missing)
                if k == "exc":
                    ctx.bad("listing succeeds", "%s: %s" % (what, exc_str(r)), r.where, what)
                    return
                items, t, warned = r
                want = []
                for i in range(depth):
                    want += [("Collection", None, True, i), ("ReportSize", None, True, i + 1)]
                for i in range(depth - missing):
                    want += [("EndCollection", None, True, depth - i - 1), ("ReportCount", None, True, depth - i - 1)]
                judge_listing(ctx, what, items, t, want)
                ctx.req((warned > 0) == (missing != 0), "closing warns exactly when collections are unbalanced",
                        lambda: "%s: %d warnings" % (what, warned), WH, what)
            ctx.explore("deep", fn, judge)

    def judge(k, r):
        if k == "exc":
            ctx.bad("listing succeeds", "lone end of collection: %s" % exc_str(r), r.where, "EndCollection")
            return
        ctx.req(r[1] > 0, "closing warns exactly when collections are unbalanced", "lone EndCollection does not warn", WH, "EndCollection")
    ctx.explore("lone end", lambda: listing([mkitem("EndCollection", 0)]), judge)


def t_tags(ctx):
    """Items that share a tag number with a collection or its end do not indent."""
    val = {"Collection": 1, "Input": 2}
    for n in spec.ITEMS:
        if n == "EndCollection":
            continue
        for n2 in ("Push", "Delimiter", "Pop", "StringMaximum", n):
            for seq in ((n, n2, "Input"), ("Collection", n, "Input", n2, "EndCollection", "Input"), ("Collection", n2, n, "EndCollection", n, "ReportSize")):
                want, d = [], 0
                for s in seq:
                    d -= s == "EndCollection"
                    want.append((s, None, True, d))
                    d += s == "Collection"

                def fn():
                    base_indent()
                    items = [mkitem(s, val.get(s, 0)) for s in seq]
                    text, warned = listing(items)
                    return items, text, warned

                def judge(k, r):
                    what = " ".join(seq)
                    if k == "exc":
                        ctx.bad("listing succeeds", "%s: %s" % (what, exc_str(r)), r.where, what)
                        return
                    judge_listing(ctx, what, r[0], r[1], want)
                    ctx.req((r[2] > 0) == (d != 0), "closing warns exactly when collections are unbalanced",
                            lambda: "%s: %d open collections, %d warnings" % (what, d, r[2]), WH, what)
                ctx.explore("tags", fn, judge)


def tasks(tier):
    yield "tags", t_tags
    yield "numbers", t_numbers
    for n in spec.FLAG_ITEMS:
        yield "flags." + n, t_flags(n)
    yield "kinds", t_kinds
    yield "units", t_units
    yield "pages", t_pages
    yield "unknown", t_unknown
    for n in PAGES:
        yield "usages." + n, t_usages(n)
    for s in ("Collection", "Input", "ReportSize"):
        yield "nesting." + s, t_nest(s, tier)
    yield "deep", t_deep
