"""Abstract strings: operations on templates with holes."""
import itertools
import re

try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:                                        # older layout
    import sre_parse
    import sre_constants as sre_c

from .num import AInt, Poly, Unsupported, INF
from .objs import AStr, Hole, mkstr
from .world import w

HEXL = frozenset("0123456789abcdef")
HEXU = frozenset("0123456789ABCDEF")
DEC = frozenset("0123456789")


def parts_of(s):
    return s.parts if isinstance(s, AStr) else ((s,) if s else ())


def samples_of(h):
    """Representative strings of a hole (complete when finite and small)."""
    if h.values is not None and len(h.values) <= 8:
        return sorted(h.values)
    if h.samples:
        return list(h.samples)
    al = h.alphabet
    if al is None:
        return ["a", "0", "A b", "x/*y*/ 0x12, 34 // q"]
    lo = h.minlen
    hi = h.maxlen if h.maxlen != INF else lo + 3
    out = []
    chars = sorted(al)
    for n in sorted({lo, min(lo + 1, hi), hi}):
        if n == 0:
            out.append("")
            continue
        for c in (chars[0], chars[-1], chars[len(chars) // 2]):
            out.append(c * n)
        out.append("".join(itertools.islice(itertools.cycle(chars), n)))
    return out


def fixed_len(s):
    """Length if every hole has a fixed length, else None."""
    n = 0
    for p in parts_of(s):
        if isinstance(p, str):
            n += len(p)
        elif p.minlen == p.maxlen:
            n += p.minlen
        else:
            return None
    return n


def len_bounds(s):
    lo = hi = 0
    for p in parts_of(s):
        if isinstance(p, str):
            lo += len(p)
            hi += len(p)
        else:
            lo += p.minlen
            hi += p.maxlen
    return lo, hi


def single_finite(s):
    """The template has exactly one finite hole: (hole, build)"""
    hs = [p for p in parts_of(s) if isinstance(p, Hole)]
    if len(hs) == 1 and hs[0].values is not None:
        h = hs[0]

        def inst(v):
            return "".join(p if isinstance(p, str) else v for p in s.parts)
        return h, inst
    return None


def map_finite(s, op, f):
    """Apply f(str) -> str | list/tuple of str | bool | int | None to a
    template with one finite hole; the result must have one shape."""
    r = single_finite(s)
    if r is None:
        return NotImplemented
    h, inst = r
    res = {v: f(inst(v)) for v in h.values}
    return regroup(h, op, res)


def regroup(h, op, res):
    vals = list(res.values())
    first = vals[0]
    if isinstance(first, str):
        if not all(isinstance(v, str) for v in vals):
            raise Unsupported("string op %s has mixed results" % (op,))
        return mkstr([Hole("map", (op, h.ident()), values=frozenset(vals))])
    if isinstance(first, (list, tuple)):
        if len({len(v) for v in vals}) != 1:
            # partition on the shape
            shapes = sorted({len(v) for v in vals})
            k = shapes[w.choose(len(shapes), "shape of %s" % op)]
            res = {a: b for a, b in res.items() if len(b) == k}
            first = next(iter(res.values()))
        return type(first)(regroup(h, (op, i), {a: b[i] for a, b in res.items()})
                           for i in range(len(first)))
    if all(v == first and type(v) is type(first) for v in vals):
        return first
    if isinstance(first, bool):
        return w.choose(2, "string test %s" % (op,)) == 0
    raise Unsupported("string op %s on a hole" % (op,))


class Skel:
    """Replace holes by private-use characters so that host string methods
    whose separators cannot occur inside the holes act on the template."""

    def __init__(self, *strs):
        self.map = {}
        self.n = 0
        self.s = [self.conv(x) for x in strs]

    def conv(self, s):
        out = []
        for p in parts_of(s):
            if isinstance(p, str):
                out.append(p)
            else:
                c = chr(0xE000 + self.n)
                self.n += 1
                self.map[c] = p
                if p.minlen == p.maxlen and p.minlen:
                    # one marker + filler keeps lengths right
                    out.append(c + chr(0xF8FF) * (p.minlen - 1))
                else:
                    out.append(c)
        return "".join(out)

    def back(self, s):
        out = []
        i = 0
        while i < len(s):
            c = s[i]
            if c in self.map:
                h = self.map[c]
                k = h.minlen if (h.minlen == h.maxlen and h.minlen) else 1
                if s[i + 1:i + k] != chr(0xF8FF) * (k - 1):
                    raise Unsupported("split inside a hole")
                out.append(h)
                i += k
            elif c == chr(0xF8FF):
                raise Unsupported("split inside a hole")
            else:
                out.append(c)
                i += 1
        return mkstr(out)


def no_holes_with(s, chars):
    for p in parts_of(s):
        if isinstance(p, Hole):
            for c in chars:
                if p.may_contain(c):
                    return False
    return True


WS = " \t\n\r\x0b\x0c"


def method(s, name, args, kw):
    """str method `name` on an abstract or concrete receiver with possibly
    abstract arguments."""
    strs = [s] + [a for a in args if isinstance(a, (str, AStr))]
    if not any(isinstance(x, AStr) for x in strs):
        return getattr(s, name)(*args, **kw)
    if isinstance(s, AStr) and not any(isinstance(a, AStr) for a in args):
        r = single_finite(s)
        if r is not None and name in ("split", "rsplit", "partition", "rpartition", "lower", "upper", "strip",
                                      "lstrip", "rstrip", "replace", "startswith", "endswith", "title",
                                      "capitalize", "isdigit", "isidentifier", "find", "count", "removeprefix",
                                      "removesuffix", "splitlines", "swapcase", "index"):
            return map_finite(s, (name, tuple(args)), lambda v: getattr(v, name)(*args, **kw))
    if name in ("split", "rsplit", "partition", "rpartition"):
        sep = args[0] if args else kw.get("sep")
        if isinstance(sep, AStr):
            raise Unsupported("abstract separator")
        if not no_holes_with(s, sep[:1] if sep else WS):
            if sep and len(sep) > 1:
                # hole may hold the first character but must not be able to
                # complete the separator
                if not all(set(sep) - (p.alphabet or set(sep)) for p in parts_of(s) if isinstance(p, Hole)):
                    raise Unsupported("separator %r inside a hole" % sep)
                # literal neighbours could complete it: refuse if a hole can end
                # with a prefix of sep and is followed by its rest
                for a, b in zip(s.parts, s.parts[1:]):
                    if isinstance(a, Hole) and isinstance(b, str) and a.may_contain(sep[0]) and b[:1] in sep[1:]:
                        raise Unsupported("separator across a hole")
            else:
                raise Unsupported("separator %r inside a hole" % (sep,))
        k = Skel(s)
        if not sep and any(isinstance(p, Hole) and p.minlen == 0 for p in s.parts):
            raise Unsupported("split on whitespace with possibly empty hole")
        r = getattr(k.s[0], name)(*args, **kw)
        return type(r)(k.back(x) for x in r)
    if name == "splitlines":
        if not no_holes_with(s, "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"):
            raise Unsupported("splitlines inside hole")
        k = Skel(s)
        return [k.back(x) for x in k.s[0].splitlines(*args, **kw)]
    if name in ("strip", "lstrip", "rstrip"):
        chars = args[0] if args and args[0] is not None else WS
        p = s.parts
        for end, edge in (("l", p[0]), ("r", p[-1])):
            if name in ("strip", end + "strip") and isinstance(edge, Hole):
                if edge.minlen == 0 or any(edge.may_contain(c) for c in chars):
                    raise Unsupported("strip inside a hole")
        k = Skel(s)
        return k.back(getattr(k.s[0], name)(*args))
    if name == "replace":
        old, new = args[0], args[1]
        if isinstance(old, AStr):
            raise Unsupported("replace")
        if not no_holes_with(s, old):
            if all(p.alphabet is not None and set(old) - p.alphabet for p in parts_of(s) if isinstance(p, Hole)) \
                    and len(old) == 1:
                pass
            else:
                raise Unsupported("replace inside a hole")
        k = Skel(s, new)
        return k.back(k.s[0].replace(old, k.s[1]))
    if name in ("lower", "upper"):
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(getattr(p, name)())
            elif p.kind == "fmt" and p.alphabet is not None:
                if all(getattr(c, name)() == c for c in p.alphabet):
                    out.append(p)
                else:
                    out.append(Hole("fmt", p.key[:2] + (name,) + p.key[3:], alphabet=frozenset(getattr(c, name)() for c in p.alphabet),
                                    minlen=p.minlen, maxlen=p.maxlen))
            else:
                raise Unsupported("%s of a hole" % name)
        return mkstr(out)
    if name in ("ljust", "rjust", "center"):
        n = fixed_len(s)
        fill = args[1] if len(args) > 1 else " "
        if n is None:
            lo, _ = len_bounds(s)
            if lo >= args[0]:
                return s
            raise Unsupported("justify a string of unknown length")
        pad = max(0, args[0] - n)
        if name == "ljust":
            return mkstr([s, fill * pad])
        if name == "rjust":
            return mkstr([fill * pad, s])
        raise Unsupported("center")
    if name == "zfill":
        n = fixed_len(s)
        if n is None:
            raise Unsupported("zfill")
        return mkstr(["0" * max(0, args[0] - n), s])
    if name in ("startswith", "endswith"):
        pre = args[0] if isinstance(args[0], tuple) else (args[0],)
        res = False
        for q in pre:
            r = _edge(s, q, name == "startswith")
            if r is None:
                r = w.choose(2, "%s %r" % (name, q)) == 0
            res = res or r
        return res
    if name in ("removeprefix", "removesuffix"):
        q = args[0]
        if method(s, "startswith" if name == "removeprefix" else "endswith", [q], {}):
            k = Skel(s)
            return k.back(getattr(k.s[0], name)(q))
        return s
    if name in ("find", "index", "count", "rfind"):
        sub = args[0]
        if not isinstance(sub, AStr) and no_holes_with(s, sub):
            if fixed_len(s) is not None or name == "count":
                k = Skel(s)
                return getattr(k.s[0], name)(*args)
        raise Unsupported("str.%s" % name)
    if name == "encode":
        from .objs import mkbytes
        raise Unsupported("encode of abstract string")
    if name == "format":
        raise Unsupported("abstract format string")
    if name == "isdigit":
        if all((p.isdigit() if isinstance(p, str) else p.alphabet is not None and p.alphabet <= DEC and p.minlen)
               for p in s.parts):
            return True
        raise Unsupported("isdigit")
    if name == "isidentifier":
        return w.choose(2, "isidentifier") == 0
    raise Unsupported("str.%s on an abstract string" % name)


def _edge(s, q, start):
    """Does template s start (end) with the concrete string q? None unknown."""
    if isinstance(q, AStr):
        raise Unsupported("abstract prefix")
    if q == "":
        return True
    p = parts_of(s)
    if not p:
        return False
    e = p[0] if start else p[-1]
    if isinstance(e, str):
        if len(e) >= len(q):
            return e.startswith(q) if start else e.endswith(q)
        if start and not q.startswith(e) or not start and not q.endswith(e):
            return False
        return None
    c = q[0] if start else q[-1]
    if e.values is not None:
        rs = {(v.startswith(q) if start else v.endswith(q)) for v in e.values}
        if len(rs) == 1:
            return rs.pop()
    if e.minlen > 0 and not e.may_contain(c):
        return False
    return None


def contains(sub, s):
    """sub in s"""
    if isinstance(sub, str) and isinstance(s, str):
        return sub in s
    if isinstance(s, AStr) and isinstance(sub, str):
        if sub == "":
            return True
        if any(isinstance(p, str) and sub in p for p in s.parts):
            return True
        r = map_finite(s, ("in", sub), lambda v: sub in v)
        if r is not NotImplemented:
            return r
        if all(isinstance(p, str) or not any(p.may_contain(c) for c in sub) for p in s.parts):
            k = Skel(s)
            return sub in k.s[0]
        return w.choose(2, "%r in string" % sub) == 0
    raise Unsupported("substring test")


def str_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    a, b = renorm(a), renorm(b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a == b:
        return True
    la, ha = len_bounds(a)
    lb, hb = len_bounds(b)
    if la > hb or lb > ha:
        return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, str):
            if not may_match(y, x):
                return False
    return w.choose(2, "string equality") == 0


def may_match(t, s):
    pat = "".join(re.escape(p) if isinstance(p, str) else hole_re(p) for p in parts_of(t))
    return re.fullmatch(pat, s, re.S) is not None


def hole_re(h):
    if h.values is not None and len(h.values) <= 5000:
        return "(?:%s)" % "|".join(re.escape(v) for v in sorted(h.values, key=len, reverse=True))
    cls = "." if h.alphabet is None else "[%s]" % "".join("\\" + c if not c.isalnum() else c for c in sorted(h.alphabet))
    return "%s{%d,%s}" % (cls, h.minlen, "" if h.maxlen == INF else int(h.maxlen))


def renorm(s):
    """Re-simplify holes whose value became constant."""
    if not isinstance(s, AStr):
        return s
    out = []
    for p in s.parts:
        if isinstance(p, Hole) and p.kind == "fmt":
            v = w.store.norm(AInt(p.key[1]))
            if isinstance(v, int):
                out.append(refmt(p, v))
                continue
            if v.p != p.key[1]:
                p = fmt_hole(p.key[0], v, p.key[2])
        out.append(p)
    return mkstr(out)


def refmt(h, v):
    spec, _, case = h.key[:3]
    r = host_fmt(spec, v)
    return getattr(r, case)() if case else r


def host_fmt(spec, v):
    if spec == "hex()":
        return hex(v)
    if spec == "str":
        return str(v)
    if spec.startswith("%"):
        return spec % v
    return format(v, spec)


def canon_spec(spec):
    return {"%d": "str", "%s": "str", "%i": "str", "%r": "str", "d": "str", "": "str", "%u": "str",
            "#x": "hex()", "%#x": "hex()",
            "02x": "%02x", "02X": "%02X", "x": "%x", "X": "%X"}.get(spec, spec)


def fmt_hole(spec, v, case=None):
    """Hole for the formatting of abstract int v."""
    spec = canon_spec(spec)
    p = w.store.poly(v)
    lo, hi = w.store.interval(p)
    al = None
    if spec in ("str",):
        al = DEC | (frozenset("-") if lo < 0 else frozenset())
    elif spec == "hex()":
        al = HEXL | frozenset("x") | (frozenset("-") if lo < 0 else frozenset())
    elif re.fullmatch(r"%?#?0?\d*x", spec):
        al = HEXL | (frozenset("-") if lo < 0 else frozenset()) | (frozenset(" ") if re.match(r"%?#?[1-9]", spec) else frozenset()) \
            | (frozenset("x") if "#" in spec else frozenset())
    elif re.fullmatch(r"%?#?0?\d*X", spec):
        al = HEXU | (frozenset("-") if lo < 0 else frozenset()) | (frozenset("X") if "#" in spec else frozenset())
    elif re.fullmatch(r"%?0?\d*[dibo]", spec):
        al = DEC | frozenset("- ")
    minl, maxl = 1, INF
    if lo > -INF and hi < INF:
        a, b = host_fmt(spec, int(lo)), host_fmt(spec, int(hi))
        if lo >= 0:
            minl, maxl = len(a), len(b)
        else:
            minl, maxl = 1, max(len(a), len(b))
    h = Hole("fmt", (spec, p, case), alphabet=al, minlen=minl, maxlen=maxl)
    # representatives: every digit class at both ends
    if lo > -INF and hi < INF and hi - lo <= 255:
        h.samples = sorted({host_fmt(spec, int(x)) for x in range(int(lo), int(hi) + 1)})[::max(1, int((hi - lo) // 16))]
        h.samples += [host_fmt(spec, int(hi))]
    if case and h.alphabet is not None:
        h = Hole("fmt", (spec, p, case), alphabet=frozenset(getattr(c, case)() for c in h.alphabet), minlen=minl, maxlen=maxl,
                 samples=[getattr(x, case)() for x in h.samples] if h.samples else None)
    return h


def parse_int(s, base):
    """int(template, base): only the formatting of one abstract int."""
    s = renorm(s)
    if isinstance(s, str):
        return int(s, base)
    ps = list(s.parts)
    # surrounding blanks
    if isinstance(ps[0], str):
        ps[0] = ps[0].lstrip()
        if ps[0] == "":
            ps.pop(0)
    if ps and isinstance(ps[-1], str):
        ps[-1] = ps[-1].rstrip()
        if ps[-1] == "":
            ps.pop()
    # generic digit sequences: literal digits and single-digit holes
    if base == 16:
        if ps and isinstance(ps[0], str) and ps[0][:2] in ("0x", "0X"):
            ps[0] = ps[0][2:]
            if ps[0] == "":
                ps.pop(0)
    if len(ps) == 1 and isinstance(ps[0], Hole) and ps[0].kind == "fmt":
        spec, p = ps[0].key[0], ps[0].key[1]
        if base == 16 and re.fullmatch(r"(%?#?0?\d*[xX]|hex\(\))", spec):
            return AInt(p)
        if base == 10 and spec in ("str",):
            return AInt(p)
        if base == 0 and spec in ("str", "hex()"):
            return AInt(p)
    # digit-by-digit
    acc = Poly.const(0)
    for p in ps:
        if isinstance(p, str):
            for c in p:
                acc = acc.scale(base).add(Poly.const(int(c, base)))
        elif p.kind == "digit" and p.key[1] == base:
            acc = acc.scale(base).add(w.store.simp(p.key[0]))
        elif p.kind == "fmt" and base == 16 and re.fullmatch(r"%?0(\d+)[xX]", p.key[0]) and p.minlen == p.maxlen:
            acc = acc.scale(16 ** p.minlen).add(w.store.simp(p.key[1]))
        else:
            raise Unsupported("int() of %r" % (s,))
    return AInt(acc)


# -- regular expressions ---------------------------------------------------------

def _classes(pattern, flags=0):
    """Character sets the pattern distinguishes (to pick representatives)."""
    return None


def instantiate(s, lens=None):
    """Yield (string, spans) for representative instantiations: spans maps
    each part to its (start, end)."""
    ps = parts_of(s)
    lists = [[p] if isinstance(p, str) else samples_of(p) for p in ps]
    combos = 1
    for l in lists:
        combos *= len(l)
    if combos <= 64:
        it = itertools.product(*lists)
    else:
        # vary one hole at a time, then all in lock-step
        n = max(len(l) for l in lists)
        base = [l[0] for l in lists]
        rows = [tuple(base)]
        for i, l in enumerate(lists):
            if len(l) > 1 and len(rows) < 400:
                for v in l[1:]:
                    rows.append(tuple(base[:i] + [v] + base[i + 1:]))
        for k in range(n):
            rows.append(tuple(l[k % len(l)] for l in lists))
        it = rows
    for row in it:
        out = ""
        spans = []
        for x in row:
            spans.append((len(out), len(out) + len(x)))
            out += x
        yield out, spans


def locate(pos, spans, ps, end):
    """Concrete offset -> template position (part index, offset)."""
    cands = []
    for i, (a, b) in enumerate(spans):
        if isinstance(ps[i], str):
            if a <= pos <= b:
                cands.append((i, pos - a))
        else:
            if pos == a:
                cands.append((i, 0))
            if pos == b:
                cands.append((i, "end"))
    if not cands and not spans:
        return {(0, 0)}
    if not cands:
        raise Unsupported("pattern boundary inside a hole")
    # canonical: global template offset index
    return {canon_pos(ps, c) for c in cands}


def canon_pos(ps, c):
    i, o = c
    if isinstance(ps[i], str):
        if o == len(ps[i]):
            return (i + 1, 0)
        return (i, o)
    if o == "end":
        return (i + 1, 0)
    return (i, 0)


def tslice(ps, a, b):
    """Template slice between canonical positions."""
    out = []
    i = a
    (ia, oa), (ib, ob) = a, b
    for k in range(len(ps)):
        if k < ia or k > ib:
            continue
        p = ps[k]
        if isinstance(p, str):
            lo = oa if k == ia else 0
            hi = ob if k == ib else len(p)
            out.append(p[lo:hi])
        else:
            if k == ib:
                continue
            out.append(p)
    return mkstr(out)


def regex_spans(pattern, s, flags, how="finditer"):
    """Match structure of the template: list of matches, each a list of group
    spans in canonical positions; must be the same for all representatives."""
    ps = parts_of(s)
    ref = None
    for text, spans in instantiate(s):
        it = list(getattr(re, how)(pattern, text, flags)) if how == "finditer" else \
            [m for m in [getattr(re, how)(pattern, text, flags)] if m]
        cur = []
        for m in it:
            g = []
            for k in range(0, (m.re.groups or 0) + 1):
                a, b = m.span(k)
                if a < 0:
                    g.append(None)
                else:
                    g.append((locate(a, spans, ps, False), locate(b, spans, ps, True)))
            cur.append(g)
        if ref is None:
            ref = cur
        else:
            if len(ref) != len(cur):
                raise Unsupported("pattern %r matches depend on hole contents" % pattern)
            for x, y in zip(ref, cur):
                for i in range(len(x)):
                    if (x[i] is None) != (y[i] is None):
                        raise Unsupported("pattern groups depend on hole contents")
                    if x[i] is not None:
                        a = x[i][0] & y[i][0]
                        b = x[i][1] & y[i][1]
                        if not a or not b:
                            raise Unsupported("pattern %r spans depend on hole contents" % pattern)
                        x[i] = (a, b)
    out = []
    for g in ref or []:
        out.append([None if x is None else (min(x[0]), max(x[1])) for x in g])
    return out
