"""Reference reading of an item stream by the HID rules, over abstract values.

read() turns items (name, abstract value) into events:
  ("open", kind, usages, designators, strings)   ("close",)
  ("field", dict)  one per data main item, with the state in force
fields() expands variable items into one entry per report field."""
from . import lib, spec
from .lib import I, w, same, int_of, eqv, attr, show, AInt
from .engine.objs import Inst


class Odd(Exception):
    """The stream is not one the HID rules give a meaning to."""


def named(i):
    """(name, value) of an item object, by its kind and tag codes."""
    k, t = int_of(attr(i, "kind")), int_of(attr(i, "tag"))
    if isinstance(k, AInt) or isinstance(t, AInt):
        raise Odd("item with abstract kind or tag")
    n = spec.BY_CODE.get((k, t))
    if n is None:
        raise Odd("unknown item %s/%s" % (k, t))
    return n, int_of(attr(i, "value"))


LISTS = {"Usage": "u", "DesignatorIndex": "d", "StringIndex": "s"}
MINS = {"UsageMinimum": "u", "DesignatorMinimum": "d", "StringMinimum": "s"}
MAXS = {"UsageMaximum": "u", "DesignatorMaximum": "d", "StringMaximum": "s"}
KEEP = ["LogicalMinimum", "LogicalMaximum", "PhysicalMinimum", "PhysicalMaximum", "Unit", "UnitExponent",
        "ReportSize", "ReportID", "ReportCount"]


def ext(v, page):
    """Extended usage; partitions on whether v is short."""
    if isinstance(page, int) and page == 0:
        return v
    if lib.le(v, 0xffff):
        return lib.add(lib.mul(page, 65536), v)
    return v


def span(a, b, limit=70):
    d = I.arith("-", b, a)
    d = w.store.norm(d) if isinstance(d, AInt) else d
    if isinstance(d, AInt):
        d = w.concretize(d, limit)
    if d < 0:
        raise Odd("range with maximum below minimum")
    if d > 2000:
        raise Odd("range too long")
    return [lib.add(a, i) for i in range(d + 1)]


def read(pairs, late=True, strict=False):
    """pairs: (name, value) in order; strict: the ends of a usage range must be
    both short or both extended, as HID 1.11 6.2.2.8 asks for."""
    G, stack, locs, out = {}, [], [], []
    depth = 0
    for n, v in pairs:
        kind = spec.ITEMS[n][0]
        if n == "Push":
            stack.append(dict(G))
        elif n == "Pop":
            if not stack:
                raise Odd("Pop without Push")
            G = stack.pop()
        elif kind == 1:
            G[n] = v
        elif kind == 2:
            locs.append((n, v, G.get("UsagePage", 0)))
        else:
            L = {"u": [], "d": [], "s": []}
            mins, maxs = {}, {}
            for ln, lv, pg in locs:
                if strict and ln in ("UsageMinimum", "UsageMaximum"):
                    short = bool(lib.le(lv, 0xffff))
                    if "u" not in mins and "u" not in maxs:
                        first = short
                    elif short != first:
                        raise Odd("usage range with one short and one extended end")
                if ln.startswith("Usage"):
                    lv = ext(lv, G.get("UsagePage", 0) if late else pg)
                if ln in LISTS:
                    L[LISTS[ln]].append(lv)
                elif ln == "Delimiter":
                    L["u"].append(("delimiter", lv))
                elif ln in MINS:
                    k = MINS[ln]
                    if k in maxs:
                        L[k] += span(lv, maxs.pop(k))
                    else:
                        mins[k] = lv
                elif ln in MAXS:
                    k = MAXS[ln]
                    if k not in mins:
                        if k in maxs:
                            raise Odd("%s twice" % ln)
                        maxs[k] = lv
                    else:
                        L[k] += span(mins.pop(k), lv)
            if maxs:
                raise Odd("maximum without minimum")
            locs = []
            if n == "Collection":
                depth += 1
                out.append(("open", v, L["u"], L["d"], L["s"]))
            elif n == "EndCollection":
                if not depth:
                    raise Odd("end of collection without collection")
                depth -= 1
                out.append(("close",))
            else:
                f = {k: G.get(k, 0) for k in KEEP}
                f.update(tag=n, flags=v, u=L["u"], d=L["d"], s=L["s"])
                out.append(("field", f))
    return out


def ambiguous(pairs):
    """The usage page may change between a usage and its main item."""
    pend = False
    for n, _ in pairs:
        if n.startswith("Usage") and n != "UsagePage":
            pend = True
        elif n in ("UsagePage", "Pop") and pend:
            return True
        elif spec.ITEMS[n][0] == 0:
            pend = False
    return False


def physical(f):
    """Effective physical range; partitions on both being zero."""
    a, b = f["PhysicalMinimum"], f["PhysicalMaximum"]
    if eqv(a, 0) and eqv(b, 0):
        return f["LogicalMinimum"], f["LogicalMaximum"]
    return a, b


def pick(l, i):
    return l[min(i, len(l) - 1)] if l else 0


def fields(events):
    """Canonical sequence for comparison: collections, array items, fields."""
    out = []
    for e in events:
        if e[0] == "open":
            d = [] if len(e[3]) == 1 and eqv(e[3][0], 0) else e[3]
            out.append(("collection", [e[1]], list(e[2]), d, list(e[4])))
            continue
        if e[0] == "close":
            out.append(("end",))
            continue
        f = e[1]
        n = f["ReportCount"]
        if isinstance(n, AInt):
            n = w.concretize(n)
        const = eqv(I.arith("&", f["flags"], 1), 1)
        var = eqv(I.arith("&", f["flags"], 2), 2)
        base = [f["flags"], f["ReportID"], f["ReportSize"]]
        if not const:
            base += [f["LogicalMinimum"], f["LogicalMaximum"], f["Unit"], f["UnitExponent"]]
            base += list(physical(f))
        if not const and not var:
            out.append(("array " + f["tag"], [n] + base, list(f["u"]), [pick(f["d"], 0)], [pick(f["s"], 0)]))
        elif any(isinstance(x, tuple) for x in f["u"]):
            out.append(("delimited " + f["tag"], [n] + base, list(f["u"]), list(f["d"]), list(f["s"])))
        else:
            for i in range(n):
                out.append(("field " + f["tag"], base, [pick(f["u"], i)], [pick(f["d"], i)], [pick(f["s"], i)]))
    return out


BASE = ["flags", "report id", "size", "logical minimum", "logical maximum", "unit", "unit exponent",
        "physical minimum", "physical maximum"]


def diff(a, b):
    """None when the two canonical sequences agree, else what differs.
    a: expected, b: found."""
    if [x[0] for x in a] != [x[0] for x in b]:
        return "fields and collections are [%s], expected [%s]" % (", ".join(x[0] for x in b), ", ".join(x[0] for x in a))
    for no, (x, y) in enumerate(zip(a, b)):
        for part, (p, q) in enumerate(zip(x[1:], y[1:])):
            what = ["attribute", "usage", "designator", "string"][part]
            if len(p) != len(q):
                return "%s %d: %d %ss, expected %d" % (x[0], no, len(q), what, len(p))
            for i, (v, u) in enumerate(zip(p, q)):
                if isinstance(v, tuple) or isinstance(u, tuple):
                    if not (isinstance(v, tuple) and isinstance(u, tuple) and same(v[1], u[1])):
                        return "%s %d: delimiters moved" % (x[0], no)
                    continue
                if not same(v, u):
                    nm = what
                    if part == 0:
                        nm = "kind" if x[0] == "collection" else (["count"] + BASE)[i] if x[0][:5] in ("array", "delim") else BASE[i]
                    return "%s %d: %s is %s, expected %s" % (x[0], no, nm, show(u), show(v))
    return None
