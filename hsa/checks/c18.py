"""C18: the command-line tools wire the requested conversion."""
import itertools
from .codec import *
from ..lib import mkbytes, mkstr, B, AStr, ABytes, exc_str, lst
from ..engine import strings
from ..engine.objs import Builtin
from .c05 import hexb, tokens, mkitem, bytes_of

RULE = ("The entry points analysed for every combination of options over a model of files and standard streams, on an input with abstract "
        "bytes.  The requested output, decoded by the requested format, holds the bytes of the input (or of the compiled tree), or of the "
        "optimizer pipeline applied to it exactly when optimization is requested; nothing else is opened for writing or written; the "
        "formatter is closed once, after its last item; unknown format names end in an error without output.")
BOUNDS = "all option combinations; two input streams per combination"
MIN_OBLIGATIONS = {"quick": 1500}
FORMATS = ("binary", "hex", "code")
CLOSES = []


class Files:
    """The file model of one run."""

    def __init__(self, content, stdin):
        self.opened = []
        self.content = content
        sysm = I.import_module("sys")
        w.touch(sysm)
        self.stdin = B.mkfile("<stdin>", "r", content if stdin else mkbytes([]) if not isinstance(content, (str, AStr)) else "")
        self.stdout = B.mkfile("<stdout>", "w")
        self.stderr = B.mkfile("<stderr>", "w")
        sysm.ns["stdin"], sysm.ns["stdout"], sysm.ns["stderr"] = self.stdin, self.stdout, self.stderr

        def op(name, mode):
            if "r" in mode and "+" not in mode:
                if name != "in.dat":
                    B.throw("FileNotFoundError", name)
                f = B.mkfile(name, mode, content)
            else:
                f = B.mkfile(name, mode, "" if "b" not in mode else b"")
            self.opened.append((name, mode, f))
            return f
        B.OPEN[0] = op

    @staticmethod
    def raw(f):
        """Everything written: list of chunks, text and buffer."""
        c = list(f.h["out"].v)
        b = f.d.get("buffer")
        if b is not None and b.h["out"] is not f.h["out"]:
            c += list(b.h["out"].v)
        return c


def mode_ok(f):
    return True


def run(entry, argv, content, stdin, *args):
    """Returns (files, error or None, closes)."""
    fs = Files(content, stdin)
    B.ARGV[0] = ["prog"] + argv
    sysm = I.import_module("sys")
    sysm.ns["argv"] = lst(*B.ARGV[0])
    del CLOSES[:]
    nw = len(B.WARNINGS.v)
    err = None
    try:
        call(get(entry), *args)
    except lib.PyExc as e:
        err = e
    return fs, err, list(CLOSES), len(B.WARNINGS.v) - nw


def watch():
    """Count close and append of the formatters by wrapping them."""
    for n in ("Binary", "Hex", "Code"):
        c = get("hrdc.stream.formatter:" + n)
        if c.ns.get("_watched"):
            continue
        for meth in ("close", "append"):
            f = c.lookup(meth)

            def wrap(a, k, f=f, meth=meth):
                CLOSES.append((a[0].birth, meth))
                return I.call(f, a, k)
            c.ns[meth] = Builtin("method:" + meth, wrap)
        c.ns["_watched"] = True


def text_of(form, units):
    if form == "binary":
        return mkbytes(units)
    ps = []
    for j, y in enumerate(units):
        if form == "hex":
            ps += [" " if j else "", hexb(y)]
        else:
            ps += ["0x", hexb(y), ", ", "// c\n" if j % 5 == 4 else ""]
    return mkstr(ps)


def decode(form, chunks):
    """Byte values in what was written, or None."""
    if form == "binary":
        u = []
        for c in chunks:
            if not isinstance(c, (bytes, ABytes)):
                return None
            u += list(I.units(c))
        return u
    if any(isinstance(c, (bytes, ABytes)) for c in chunks):
        return None
    try:
        r = tokens(form.capitalize(), mkstr(chunks))
        # code lines have comments, hex has none and no commas
        t = mkstr(chunks)
        if form == "hex" and not (isinstance(t, AStr) or "," not in t):
            return None
        if r and form == "hex" and isinstance(t, AStr) and any(isinstance(p, str) and ("," in p or "//" in p) for p in t.parts):
            return None
        if r and form == "code" and not any(isinstance(p, str) and "//" in p for p in strings.parts_of(t)):
            return None
        return r
    except (ValueError, lib.Unsupported):
        return None


def streams():
    """Named inputs: items with abstract values."""
    a, b = sym("a", 64, 127), sym("b", 64, 127)
    K = [("UsagePage", 1), ("Usage", 2), ("Collection", 1), ("ReportSize", a), ("ReportSize", a), ("ReportCount", 1), ("LogicalMinimum", 1),
         ("LogicalMaximum", b), ("Usage", 0x30), ("Input", 2), ("Usage", 0x31), ("Input", 2), ("EndCollection", 0)]
    # left open: the last field is pending in the optimizer until closed
    P = [("UsagePage", 1), ("Usage", 2), ("Collection", 1), ("ReportSize", a), ("ReportCount", 1), ("LogicalMinimum", 1),
         ("LogicalMaximum", b), ("ReportSize", a), ("Usage", 0x30), ("Input", 2), ("Usage", 0x31), ("Input", 2)]
    return {"closed": K, "open": P}


def optimized(items):
    s = lib.sink()
    o = call(get("hrdc.stream.optimizer:Optimizer.new"), s)
    for i in items:
        m(o, "append", i)
    m(o, "close")
    return list(attr(s, "items").v)


def parsed(units):
    f = B.mkfile("in", "rb", mkbytes(units))
    s = lib.sink()
    m(call(get("hrdc.stream.parser:Binary"), f, s), "read")
    return list(attr(s, "items").v)


def judge_run(ctx, what, wh, fs, err, closes, want, oform, tofile, stdin_used, read_input=True):
    inp = what
    if err is not None:
        ctx.bad("the conversion succeeds", "%s: %s" % (what, exc_str(err)), err.where or wh, inp)
        return
    outs = [(n, mo, f) for n, mo, f in fs.opened if "r" not in mo or "+" in mo]
    names = [n for n, _, _ in outs]
    ctx.req(names == (["out.dat"] if tofile else []), "only the requested output is opened", lambda: "%s: opened %s" % (what, [(n, mo) for n, mo, _ in fs.opened]), wh, inp)
    dest = outs[0][2] if tofile and outs else fs.stdout
    got = decode(oform, Files.raw(dest))
    ctx.req(got is not None and len(got) == len(want) and all(same(x, y) for x, y in zip(got, want)), "the output is the requested conversion",
            lambda: "%s: wrote %r, expected the bytes %s as %s" % (what, Files.raw(dest), show(want), oform), wh, inp)
    for f in (fs.stdout, fs.stderr):
        if f is not dest:
            ctx.req(not Files.raw(f), "nothing is written elsewhere", lambda: "%s: %s got %r" % (what, f.d["name"], Files.raw(f)), wh, inp)
    objs = {b for b, _ in closes}
    ctx.req(len(objs) == 1 and [x for _, x in closes].count("close") == 1 and closes[-1][1] == "close", "the output stream is finished once, last",
            lambda: "%s: %s" % (what, [x for _, x in closes]), wh, inp)


def options(long_, form, default, flag):
    """Spellings of a format option."""
    r = [[flag[0], form], [flag[1] + "=" + form]] if long_ else [[flag[0], form]]
    if form == default:
        r.append([])
    return r


def t_converter(iform):
    wh = "hrdc/converter.py"

    def run_(ctx):
        watch()
        for oform in FORMATS:
            for opt in ([], ["-O"], ["--optimize"]):
                for io in ((0, 0), (1, 0), (1, 1), (0, 1)):
                    # a named output needs a named input; "-" stands for standard input
                    pos = {(0, 0): [], (1, 0): ["in.dat"], (1, 1): ["in.dat", "out.dat"], (0, 1): ["-", "out.dat"]}[io]
                    for name in ("closed", "open") if io == (1, 1) else ("closed",):
                        for ia in options(io == (1, 1), iform, "binary", ("-i", "--input-format")):
                            for oa in options(io == (1, 1), oform, "binary", ("-o", "--output-format")):
                                def fn():
                                    items = [mkitem(n, v) for n, v in streams()[name]]
                                    u = bytes_of(items)
                                    want = bytes_of(optimized(parsed(u))) if opt else u
                                    r = run("hrdc.converter:_main", ia + oa + opt + pos, text_of(iform, u), not io[0])
                                    return r, want

                                def judge(k, r):
                                    what = "converter %s, stream %s" % (" ".join(ia + oa + opt + pos), name)
                                    if k == "exc":
                                        ctx.bad("the conversion succeeds", "%s: %s" % (what, exc_str(r)), r.where, what)
                                        return
                                    (fs, err, closes, nw), want = r
                                    judge_run(ctx, what, wh, fs, err, closes, want, oform, io[1], not io[0])
                                    reads = [n for n, mo, f in fs.opened if mo[:1] == "r"]
                                    ctx.req(reads == (["in.dat"] if io[0] else []), "only the requested input is opened", lambda: "%s: read %s" % (what, reads), wh, what)
                                ctx.explore("converter", fn, judge)
    return run_


def t_errors(ctx):
    watch()
    u0 = lambda: bytes_of([mkitem("ReportSize", sym("a", 128, 255)), mkitem("EndCollection", 0)])
    cases = []
    for bad in ("foo", "", "bin", "text", "parser", "formatter", "object", "Binary", "HEX", "Code", " hex", "hex ", "code ", "\tbinary", "binaryx", "xhex", "hex,code", "*"):
        cases += [("hrdc.converter:_main", ["-i", bad, "in.dat", "out.dat"], ()), ("hrdc.converter:_main", ["-o", bad, "in.dat", "out.dat"], ()),
                  ("hrdc.descriptor.extractor:main", ["-i", bad, "in.dat", "out.dat"], ()), ("hrdc.descriptor.compiler:compile_main", ["-o", bad, "out.dat"], "tree")]
    for entry, argv, args in cases:
        def fn():
            a = (tree("top"),) if args == "tree" else ()
            return run(entry, argv, mkbytes(u0()), False, *a)

        def judge(k, r):
            what = "%s %s" % (entry, argv)
            if k == "exc":
                ctx.ok("unknown format is an error")
                return
            fs, err, closes, nw = r
            code = None
            if err is not None and lib.exc_name(err) == "SystemExit":
                a = err.value.d.get("args", ())
                code = a[0] if a else 0
            ctx.req(err is not None and code not in (0, None) or err is not None and lib.exc_name(err) != "SystemExit", "unknown format is an error",
                    lambda: "%s: ends as if it had worked" % what, "hrdc/converter.py", what)
            for n, mo, f in fs.opened + [("<stdout>", "w", fs.stdout)]:
                if "r" not in mo:
                    ctx.req(not Files.raw(f), "no output for an unknown format", lambda: "%s: %s got %r" % (what, n, Files.raw(f)), "hrdc/converter.py", what)
        ctx.explore("unknown format", fn, judge)
    # truncated input is not reported as success
    for iform in FORMATS:
        def fn():
            u = bytes_of([mkitem("ReportSize", sym("a", 128, 255)), mkitem("Unit", sym("b", 1 << 31, U32))])[:-1]
            return run("hrdc.converter:_main", ["-i", iform, "in.dat", "out.dat"], text_of(iform, u), False)

        def judge(k, r):
            what = "converter -i %s with a truncated item" % iform
            if k == "exc":
                ctx.ok("truncated input is an error")
                return
            ctx.req(r[1] is not None, "truncated input is an error", lambda: "%s: ends as if it had worked" % what, "hrdc/converter.py", what)
        ctx.explore("truncated", fn, judge)


D = "hrdc.descriptor:"


def value(us, n="v", size=8, **k):
    V = get(D + "Value")
    k.setdefault("logicalMin", 1)
    k.setdefault("logicalMax", sym("b", 64, 127))
    return call(V, attr(V, "Input"), call(get("hrdc.usage:Usage.lookup"), us), size, **k)


def tree(kind):
    C, T, R = get(D + "Collection"), get(D + "TopLevel"), get(D + "Report")
    v = lambda: [value(0x10030, size=sym("a", 64, 127)), value(0x10031, size=sym("a", 64, 127))]
    app = attr(C, "Application")
    mouse = call(get("hrdc.usage:Usage.lookup"), 0x10002)
    if kind == "top":
        return call(T, call(C, app, mouse, *[value(0x10030), value(0x10031)]))
    if kind == "report":
        return call(C, app, mouse, call(R, 3, *[value(0x10030), value(0x10031)]))
    # fields at the end of the stream, pending until the optimizer is closed
    return call(T, *[value(0x10030), value(0x10031)])


def streamed(t):
    s = lib.sink()
    m(t, "accept", call(get("hrdc.descriptor.streamer:Streamer"), s))
    return list(attr(s, "items").v)


def t_compiler(ctx):
    wh = "hrdc/descriptor/compiler.py"
    watch()
    for oform in FORMATS:
        for no in ([], ["-N"], ["--no-optimize"]):
            for tofile in (0, 1):
                for name in ("top", "report", "bare"):
                    for oa in options(True, oform, "binary", ("-o", "--output-format")):
                        pos = ["out.dat"] if tofile else []

                        def fn():
                            t = tree(name)
                            it = streamed(t)
                            want = bytes_of(it if no else optimized(it))
                            return run("hrdc.descriptor.compiler:compile_main", oa + no + pos, b"", True, t), want

                        def judge(k, r):
                            what = "compiler %s, tree %s" % (" ".join(oa + no + pos), name)
                            if k == "exc":
                                ctx.bad("the conversion succeeds", "%s: %s" % (what, exc_str(r)), r.where, what)
                                return
                            (fs, err, closes, nw), want = r
                            judge_run(ctx, what, wh, fs, err, closes, want, oform, tofile, True)
                        ctx.explore("compiler", fn, judge)


def dumped(u):
    """The dump of the descriptor the bytes stand for."""
    e = call(get("hrdc.descriptor.extractor:Extractor"))
    for i in parsed(u):
        m(e, "append", i)
    m(e, "close")
    f = B.mkfile("ref", "w")
    m(attr(e, "root"), "accept", call(get("hrdc.descriptor.dumper:Dumper"), f))
    return mkstr(list(f.h["out"].v))


def t_decompiler(ctx):
    wh = "hrdc/descriptor/extractor.py"
    for iform in FORMATS:
        for io in ((0, 0), (1, 0), (1, 1), (0, 1)):
            pos = {(0, 0): [], (1, 0): ["in.dat"], (1, 1): ["in.dat", "out.dat"], (0, 1): ["-", "out.dat"]}[io]
            for ia in options(True, iform, "binary", ("-i", "--input-format")):
                def fn():
                    items = [mkitem(n, v) for n, v in streams()["closed"]]
                    u = bytes_of(items)
                    return run("hrdc.descriptor.extractor:main", ia + pos, text_of(iform, u), not io[0]), dumped(u)

                def judge(k, r):
                    what = "decompiler %s" % " ".join(ia + pos)
                    if k == "exc":
                        ctx.bad("the conversion succeeds", "%s: %s" % (what, exc_str(r)), r.where, what)
                        return
                    (fs, err, closes, nw), want = r
                    if err is not None:
                        ctx.bad("the conversion succeeds", "%s: %s" % (what, exc_str(err)), err.where or wh, what)
                        return
                    outs = [(n, mo, f) for n, mo, f in fs.opened if "r" not in mo or "+" in mo]
                    ctx.req([n for n, _, _ in outs] == (["out.dat"] if io[1] else []), "only the requested output is opened",
                            lambda: "%s: opened %s" % (what, [(n, mo) for n, mo, _ in fs.opened]), wh, what)
                    reads = [n for n, mo, f in fs.opened if mo[:1] == "r"]
                    ctx.req(reads == (["in.dat"] if io[0] else []), "only the requested input is opened", lambda: "%s: read %s" % (what, reads), wh, what)
                    dest = outs[0][2] if io[1] and outs else fs.stdout
                    ch = Files.raw(dest)
                    got = mkstr(ch) if not any(isinstance(c, (bytes, ABytes)) for c in ch) else None
                    ctx.req(got is not None and got != "" and strings.renorm(got) == strings.renorm(want), "the output is the dumped descriptor",
                            lambda: "%s: wrote %r, expected %r" % (what, got, want), wh, what)
                    for f in (fs.stdout, fs.stderr):
                        if f is not dest:
                            ctx.req(not Files.raw(f), "nothing is written elsewhere", lambda: "%s: %s got %r" % (what, f.d["name"], Files.raw(f)), wh, what)
                ctx.explore("decompiler", fn, judge)


def t_long(ctx, reps=(900,)):
    """Inputs longer than any plausible buffer, read and written whole: the abstract
    items stand at the far end."""
    watch()
    for N in reps:
        for iform in FORMATS:
            for src in (0, 1):
                oform = FORMATS[(FORMATS.index(iform) + 1) % 3]
                argv = ["-i", iform, "-o", oform, "in.dat" if src else "-", "out.dat"]

                def fn():
                    one = bytes_of([mkitem("ReportSize", 7), mkitem("Unit", 0x01020304)])
                    u = one * N + bytes_of([mkitem("ReportSize", sym("a", 64, 127)), mkitem("EndCollection", 0)])
                    t = text_of(iform, u)
                    if iform != "binary":
                        # blanks in the middle: a long text for few bytes
                        t = mkstr([text_of(iform, u[:len(one)]), " " * 66000, text_of(iform, u[len(one):])])
                    return run("hrdc.converter:_main", argv, t, not src), u

                def judge(k, r):
                    what = "converter %s with %d items" % (" ".join(argv), 2 * N + 2)
                    if k == "exc":
                        ctx.bad("the conversion succeeds", "%s: %s" % (what, exc_str(r)), r.where, what)
                        return
                    (fs, err, closes, nw), want = r
                    if err is not None:
                        ctx.bad("the conversion succeeds", "%s: %s" % (what, exc_str(err)), err.where, what)
                        return
                    outs = [f for n, mo, f in fs.opened if n == "out.dat"]
                    got = decode(oform, Files.raw(outs[0])) if outs else None
                    n = 0 if got is None else next((i for i, (x, y) in enumerate(zip(got, want)) if not same(x, y)), min(len(got), len(want)))
                    ctx.req(got is not None and n == len(got) == len(want), "a long input is converted whole",
                            lambda: "%s: %d of %d bytes right" % (what, n, len(want)), "hrdc/converter.py", what)
                ctx.explore("long", fn, judge)


    for iform in FORMATS:
        def fn():
            one = bytes_of([mkitem("ReportSize", 7), mkitem("Unit", 0x01020304)])
            items = [mkitem(n, v) for n, v in streams()["closed"]]
            u = bytes_of(items[:-1])
            last = bytes_of([mkitem("Usage", 0x32), mkitem("Input", 6), items[-1]])
            u = u + one * reps[0] + last
            t = text_of(iform, u)
            if iform != "binary":
                t = mkstr([text_of(iform, u[:len(one)]), " " * 66000, text_of(iform, u[len(one):])])
            return run("hrdc.descriptor.extractor:main", ["-i", iform, "in.dat", "out.dat"], t, False), dumped(u)

        def judge(k, r):
            what = "decompiler -i %s with %d items" % (iform, 2 * reps[0] + 14)
            if k == "exc" or r[0][1] is not None:
                e = r if k == "exc" else r[0][1]
                ctx.bad("the conversion succeeds", "%s: %s" % (what, exc_str(e)), e.where, what)
                return
            (fs, err, closes, nw), want = r
            outs = [f for n, mo, f in fs.opened if n == "out.dat"]
            got = mkstr(Files.raw(outs[0])) if outs else None
            ctx.req(got is not None and got != "" and strings.renorm(got) == strings.renorm(want), "a long input is decompiled whole",
                    lambda: "%s: wrote %r, expected %r" % (what, got, want), "hrdc/descriptor/extractor.py", what)
        ctx.explore("long decompiler", fn, judge)


def tasks(tier):
    yield "long", lambda ctx: t_long(ctx, (900, 1800) if tier == "thorough" else (900,))
    for f in FORMATS:
        yield "converter." + f, t_converter(f)
    yield "errors", t_errors
    yield "compiler", t_compiler
    yield "decompiler", t_decompiler
