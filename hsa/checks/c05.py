"""C05: binary, hex and code forms carry the same bytes."""
import itertools
from .codec import *
from ..lib import mkbytes, mkstr, B, AStr, Infeasible, exc_str
from ..engine import strings
from .c04 import raw, val

RULE = ("Formatters analysed on items of every kind with abstract values: the written template, read by a reference tokenizer, holds the "
        "bytes of the items in order, and the matching parser, analysed on that template, delivers the same items.  Text parsers "
        "analysed on templates with abstract bytes in every spelling and layout, and on every short comment text.")
BOUNDS = ("sequences of up to 3 items; comment texts complete up to 3 characters (thorough: 4) over the alphabet / * newline blank 0 x , a quote, longer ones listed")
MIN_OBLIGATIONS = {"quick": 5000}
FMT = "hrdc.stream.formatter:"
PRS = "hrdc.stream.parser:"
WF, WP = "hrdc/stream/formatter/", "hrdc/stream/parser/"


def write(form, items, std=False):
    """What the formatter writes for these items."""
    f = B.mkfile("out", "w" if form != "Binary" or std else "wb")
    o = call(get(FMT + form), f)
    for i in items:
        m(o, "append", i)
    m(o, "close")
    if form == "Binary":
        src = f.d["buffer"] if std else f
        u = []
        for x in src.h["out"].v:
            u += list(I.units(x))
        return mkbytes(u)
    return mkstr(list(f.h["out"].v))


def read(form, content, std=False):
    f = B.mkfile("in", "r" if form != "Binary" or std else "rb", content)
    s = lib.sink()
    p = call(get(PRS + form), f, s)
    m(p, "read")
    return s


def tokens(form, text):
    """Byte values in a hex or code text, by the reference rules."""
    if form == "Code":
        out = []
        for l in strings.method(text, "split", ["\n"], {}):
            out.append(strings.method(l, "partition", ["//"], {})[0])
        text = mkstr(list(itertools.chain.from_iterable((x, " ") for x in out)))
    text = strings.method(text, "replace", [",", " "], {})
    return [strings.parse_int(t, 16) for t in strings.method(text, "split", [], {})]


def bytes_of(items):
    u = []
    for i in items:
        u += list(I.units(m(i, "bytes")))
    return u


def trip(ctx, form, what, mk, std=False, limit=20000):
    def fn():
        items = mk()
        want = bytes_of(items)
        text = write(form, items, std)
        if form == "Binary":
            got = list(I.units(text))
        else:
            got = tokens(form, text)
        err = None
        s = None
        try:
            s = read(form, text, std)
        except lib.PyExc as e:
            err = e
        return items, want, text, got, s, err

    def judge(k, r):
        inp = "%s as %s" % (what, form.lower())
        if k == "exc":
            ctx.bad("formatting succeeds", "%s: %s" % (inp, exc_str(r)), r.where, inp)
            return
        items, want, text, got, s, err = r
        full = lambda: "%s: %s" % (inp, show(items))
        ctx.req(len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)), "the written form holds the bytes of the items",
                lambda: "%s: written %r holds %s, the items are %s" % (inp, text, show(got), show(want)), WF, full)
        if err is not None:
            ctx.bad("what was written parses", "%s: %s" % (inp, exc_str(err)), err.where, full())
            return
        back = attr(s, "items").v
        ok = len(back) == len(items) and all(
            same(int_of(attr(a, n)), int_of(attr(b, n))) for a, b in zip(back, items) for n in ("kind", "tag", "value"))
        ctx.req(ok, "the matching parser reads the items back", lambda: "%s: read back %s" % (inp, show(back)), WP, full)
    ctx.explore(what, fn, judge, limit)


def doms(n):
    if n in spec.NO_VALUE:
        return [(0, 0)]
    if n in spec.FLAG_ITEMS:
        return [(0, 511), (512, 1023)] if n == "Input" else [(0, 15), (0xffff0000, 0xffff000f)]
    if spec.ITEMS[n][2]:
        return [(-(1 << 31), (1 << 31) - 1)]
    return [(0, U32)]


def mkitem(n, v):
    c = get(ITEM + n)
    return call(c) if n in spec.NO_VALUE else call(c, v)


def t_kind(name):
    def run(ctx):
        for form in ("Binary", "Hex", "Code"):
            for lo, hi in doms(name):
                if name in spec.FLAG_ITEMS and form != "Code":
                    lo, hi = (0, 7) if not lo else (512, 1023)
                v = val("v", lo, hi)
                trip(ctx, form, name, lambda: [mkitem(name, v)])
    return run


def usage(name, v):
    return call(get("hrdc.usage:Usage"), name, v, register=False)


def t_seq(form):
    # one size class each; the whole ranges are covered item by item
    K = [("ReportSize", 128, 255), ("UsagePage", 0x8000, 0xfeff), ("Usage", 1 << 31, U32), ("Collection", 128, 255), ("LogicalMinimum", -32768, -16385),
         ("EndCollection", 0, 0), ("Push", 0, 0), ("Unit", 1 << 31, U32)]

    def run(ctx):
        for std in (False, True) if form == "Binary" else (False,):
            for l in (0, 1, 2, 3):
                for seq in itertools.product(range(len(K)), repeat=l):
                    if l == 3 and (seq[0] + seq[1] * 3 + seq[2]) % 5:
                        continue
                    def mk():
                        out = []
                        for j, i in enumerate(seq):
                            n, lo, hi = K[i]
                            v = val("v%d" % j, lo, hi)
                            if n == "Usage":
                                v = usage("m.N%d" % j, v)
                            out.append(mkitem(n, v))
                        return out
                    trip(ctx, form, "[%s]%s" % (", ".join(K[i][0] for i in seq), " to a text stream" if std else ""), mk)
    return run


NAMES = ["a/*b", "a*/b", "x // y", "/*", "*/", "0x12, 0x34", "12 34", "a, b,", "//", "/* c */ 0x55,", "\"", "'", "\\", "é", "#", "%s", "%", "/"]


def t_annotation(ctx):
    for nm in NAMES:
        for form in ("Hex", "Code"):
            u, v = sym("u", 1 << 31, U32), sym("v", 0x8000, 0xfeff)
            trip(ctx, form, "usages named %r" % nm, lambda: [mkitem("Usage", usage(nm, u)), mkitem("ReportCount", v), mkitem("Usage", usage(nm, u)), mkitem("UsagePage", usage(nm, v))])


# -- reading text -----------------------------------------------------------------------

def hexb(v, up=False):
    return strings.fmt_hole("%02X" if up else "%02x", v) if isinstance(v, AInt) else ("%02X" if up else "%02x") % v


def text_is(ctx, form, what, mk, limit=2000):
    """mk() -> (text, byte values); the parser must deliver the items these bytes are."""
    def fn():
        text, want = mk()
        err = s = None
        try:
            s = read(form, text)
        except lib.PyExc as e:
            err = e
        return text, want, s, err

    def judge(k, r):
        if k == "exc":
            ctx.bad("text parses", "%s: %s" % (what, exc_str(r)), r.where, what)
            return
        text, want, s, err = r
        if err is not None:
            ctx.bad("text parses", "%s: %s" % (what, exc_str(err)), err.where, repr(text))
            return
        back = attr(s, "items").v
        ok = len(back) == len(want) and all(
            same(int_of(attr(a, "kind")), spec.ITEMS[n][0]) and same(int_of(attr(a, "tag")), spec.ITEMS[n][1])
            and same(int_of(attr(a, "value")), v) for a, (n, v) in zip(back, want))
        ctx.req(ok, "reading %s gives the bytes written in it" % form.lower(), lambda: "%s: read %s" % (what, show(back)), WP, lambda: repr(text))
        ctx.req(attr(s, "closed") == 1, "closed once", lambda: "%s: closed %s times" % (what, show(attr(s, "closed"))), WP, lambda: repr(text))
    ctx.explore(what, fn, judge, limit)


def two(v, x):
    """Two items: ReportSize(v) and Unit(x); prefix bytes, values."""
    b = [0x75, v, 0x67] + le_bytes(x, 4)
    return b, [("ReportSize", v), ("Unit", x)]


def t_hex(ctx):
    for sep in (" ", "\n", "  ", "\t", ", ", ",", ",\n", " \r\n", ";"):
        for pre in ("", "0x"):
            for up in (False, True):
                for lead, trail in (("", ""), ("\n", "\n"), ("  ", " "), ("", ",")):
                    def mk():
                        b, want = two(sym("v", 0, 255), sym("x", 1 << 25, U32))
                        ps = [lead]
                        for j, y in enumerate(b):
                            ps += [sep] * (j > 0) + [pre, hexb(y, up)]
                        return mkstr(ps + [trail]), want
                    text_is(ctx, "Hex", "hex bytes %s%s separated by %r, between %r and %r" % (pre, "upper case" if up else "", sep, lead, trail), mk)
    # every byte value, spelled out
    for up in (False, True):
        for pre in ("", "0x"):
            for v in range(256):
                text_is(ctx, "Hex", "byte %d" % v, lambda: ("%s75 %s%s" % (pre, pre, ("%02X" if up else "%02x") % v), [("ReportSize", v)]))
    text_is(ctx, "Hex", "mixed spellings", lambda: ("0x75 0C 0x75 aB 75 0xFf\n", [("ReportSize", 12), ("ReportSize", 0xab), ("ReportSize", 255)]))
    text_is(ctx, "Hex", "empty text", lambda: ("", []))
    text_is(ctx, "Hex", "blank text", lambda: (" \n\n", []))


def t_layout(ctx):
    for sep in (", ", ",", ",\n", ",\n    ", " , ", ",\t", ",\r\n"):
        for up in (False, True):
            for lead, trail in (("", ""), ("\n  ", ",\n"), ("", " "), ("/* x */", "// y"), ("// c\n", ", // d\n"), ("", ", /* e */\n/* f\n*/")):
                def mk():
                    b, want = two(sym("v", 0, 255), sym("x", 1 << 25, U32))
                    ps = [lead]
                    for j, y in enumerate(b):
                        ps += [sep] * (j > 0) + ["0x", hexb(y, up)]
                    return mkstr(ps + [trail]), want
                text_is(ctx, "Code", "code bytes%s separated by %r, between %r and %r" % (" upper case" if up else "", sep, lead, trail), mk)
    for v in range(256):
        text_is(ctx, "Code", "byte %d" % v, lambda: ("0x75, 0x%02x," % v, [("ReportSize", v)]))
    text_is(ctx, "Code", "empty text", lambda: ("", []))
    text_is(ctx, "Code", "blank text", lambda: (" \n\n", []))
    text_is(ctx, "Code", "comments only", lambda: ("// a\n/* b */\n", []))


LONGN = 700


def long_listing():
    """(text, items): a long listing with several comments on every line."""
    out, want = ["/* report\n * descriptor */\n"], []
    for i in range(LONGN):
        if i % 7 == 0:
            out.append("// section %d, 0x%02x,\n" % (i, i & 255))
        if i % 3 == 0:
            out.append("    0x75, /* size */ 0x%02x, // ReportSize (%d)\n" % (i & 255, i & 255))
            want.append(("ReportSize", i & 255))
        elif i % 3 == 1:
            out.append("    0x95, 0x%02x, // ReportCount (%d)\n\n" % (i & 255, i & 255))
            want.append(("ReportCount", i & 255))
        else:
            out.append("    0xa5, 0x00, /* Push\n */\n")
            want.append(("Push", 0))
    return "".join(out), want


def t_long(ctx):
    text_is(ctx, "Code", "a listing of %d lines" % LONGN, long_listing)

    def hexes(sep, pre):
        _, want = long_listing()
        b = []
        for n, v in want:
            b += ["A5", "00"] if n == "Push" else ["75" if n == "ReportSize" else "95", "%02X" % v]
        return sep.join(pre + x for x in b), want
    for sep in (" ", "\n", ", "):
        for pre in ("", "0x"):
            text_is(ctx, "Hex", "%d items in hex, separated by %r, prefix %r" % (LONGN, sep, pre), lambda: hexes(sep, pre))
    for form in ("Binary", "Hex", "Code"):
        trip(ctx, form, "%d items" % LONGN, lambda: [mkitem(n, v) for n, v in long_listing()[1]])


CH = "/*\n 0x,a\""
LONG = ["/* nested /* twice */", "https://x", " // x", "*", "**", "***", " 0x12, 0x34,", "\n0x12,\n0x34,\n", "//\n//", "a\n * b\n * c\n", "'", "/", "/ *", "* /", "//*", "*//", "\\", "//\\\n", " \"//\" ", "}", "é", "\t\t", "\r\n", "0x12,\\", "#", "/**/", "%d"]


def comments(tier):
    n = 3 if tier == "quick" else 4
    for l in range(n + 1):
        for t in itertools.product(CH, repeat=l):
            yield "".join(t)
    for t in LONG:
        yield t


def t_comments(part, tier):
    def run(ctx):
        n = 0
        for t in comments(tier):
            b = lambda s: ("0x75, 0x08,%s0x95, 0x02," % s, [("ReportSize", 8), ("ReportCount", 2)])
            e = lambda s: ("%s0x75, 0x08, // z\n%s" % (s, s), [("ReportSize", 8)])
            if part == "line" and "\n" not in t:
                n += 1
                text_is(ctx, "Code", "line comment %r" % t, lambda: b("//" + t + "\n"))
                text_is(ctx, "Code", "line comments around, %r" % t, lambda: e("//" + t + "\n"))
                text_is(ctx, "Code", "last line comment %r" % t, lambda: ("0x75, 0x08, //" + t, [("ReportSize", 8)]))
            if part == "block" and (t + "*/").index("*/") == len(t):
                n += 1
                text_is(ctx, "Code", "block comment %r" % t, lambda: b("/*" + t + "*/"))
                text_is(ctx, "Code", "block comments around, %r" % t, lambda: e("/*" + t + "*/"))
            if part == "both" and len(t) < 3 and "\n" not in t and "*/" not in t + "*/"[:1]:
                n += 1
                text_is(ctx, "Code", "block then line, %r" % t, lambda: b("/*" + t + "*/ //" + t + "\n"))
                text_is(ctx, "Code", "line then block, %r" % t, lambda: b("//" + t + "\n/*" + t + "*/"))
                text_is(ctx, "Code", "two blocks, %r" % t, lambda: ("0x75, /*" + t + "*/ 0x08, /*" + t + "*/ 0x95, 0x02,", [("ReportSize", 8), ("ReportCount", 2)]))
        ctx.notes["comment texts"] = n
    return run


def tasks(tier):
    for n in spec.ITEMS:
        yield "item." + n, t_kind(n)
    for f in ("Binary", "Hex", "Code"):
        yield "sequence." + f, t_seq(f)
    yield "annotation", t_annotation
    yield "hex", t_hex
    yield "layout", t_layout
    yield "long", t_long
    for p in ("line", "block", "both"):
        yield "comments." + p, t_comments(p, tier)
