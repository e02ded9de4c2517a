"""C13: usage constants carry the right codes and their own names."""
import json
import os
from .codec import *
from ..lib import mkstr
from ..engine import strings

RULE = ("The usage modules are evaluated abstractly (their statements, not the library at run time): every module level name bound to a usage "
        "is compared with the transcription of the HID usage tables in hsa/usages.json, its name with its identifier, its code with the "
        "page of its module and with every other constant, and lookup of its code with the constant itself.  Button(n) and Ordinal(n) are "
        "analysed for an abstract number.")
BOUNDS = "complete"
MIN_OBLIGATIONS = {"quick": 5000}
PAGES = {"desktop": 1, "simulation": 2, "vr": 3, "game": 5, "device": 6, "keyboard": 7, "led": 8, "button": 9, "ordinal": 0xa, "telephony": 0xb,
         "consumer": 0xc, "digitizers": 0xd, "pid": 0xf, "sensors": 0x20, "lighting": 0x59, "camera": 0x90, "arcade": 0xff00}
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "usages.json")))
NUMBERED = {"button": ("Button", 0x90000), "ordinal": ("Ordinal", 0xa0000)}


def modules():
    d = os.path.join(I.REPO, "hrdc", "usage")
    names = set(PAGES)
    for f in sorted(os.listdir(d)):
        n = f[:-3] if f.endswith(".py") else f if os.path.isdir(os.path.join(d, f)) else None
        if n and n.isidentifier() and n not in ("__init__", "usage", "__pycache__"):
            names.add(n)
    return sorted(names)


def constants(n):
    us = get("hrdc.usage:Usage")
    out = {}
    for k, v in lib.mod("hrdc.usage." + n).ns.items():
        if isinstance(v, Inst) and us in v.cls.mro:
            out[k] = v
    return out


def t_module(n):
    wh = "hrdc/usage/%s.py" % n

    def run(ctx):
        us = get("hrdc.usage:Usage")
        cs = constants(n)
        page = PAGES.get(n)
        for k, u in cs.items():
            v = int_of(u)
            inp = "hrdc.usage.%s.%s" % (n, k)
            if not ctx.req(isinstance(v, int), "a constant has one code", lambda: "%s is %s" % (inp, show(v)), wh, inp):
                continue
            want = TABLE.get(n, {}).get(k)
            if want is not None:
                ctx.req(v == want, "code as in the HID usage tables", lambda: "%s is 0x%x, the usage tables say 0x%x" % (inp, v, want), wh, inp)
            if page is not None:
                ctx.req(v >> 16 == page, "constant lies on the page of its module", lambda: "%s is 0x%x, the page is 0x%x" % (inp, v, page), wh, inp)
            names = ["%s.%s" % (n, a) for a, o in cs.items() if o is u]
            ctx.req(attr(u, "name") in names, "named after its identifier", lambda: "%s is named %r" % (inp, attr(u, "name")), wh, inp)

            def fn(v=v):
                return m(us, "lookup", v), m(us, "lookup", call(us, "x", v, register=False)) and 0

            def judge(kind, r, u=u, inp=inp):
                if kind == "exc":
                    ctx.bad("lookup gives the constant back", "%s: %s" % (inp, lib.exc_str(r)), r.where, inp)
                    return
                ctx.req(r[0] is u, "lookup gives the constant back", lambda: "lookup of %s gives %s" % (inp, show(r[0])), wh, inp)
            ctx.explore(inp, fn, judge)
        missing = sorted(set(TABLE.get(n, {})) - set(cs))
        if missing:
            ctx.notes["no longer defined"] = missing
        ctx.notes["constants"] = len(cs)
    return run


def t_numbered(n):
    f, base = NUMBERED[n]
    wh = "hrdc/usage/%s.py" % n

    def run(ctx):
        us = get("hrdc.usage:Usage")
        fun = get("hrdc.usage.%s:%s" % (n, f))
        named = get("hrdc.util:NamedConstant")
        for mk in (lambda v: v, lambda v: call(named, "x", v)):
          for v in [sym("n", 128, 65535)] + list(range(128)):
            def fn():
                u = call(fun, mk(v))
                return u, attr(u, "name")

            def judge(k, r):
                inp = "%s.%s(%s)" % (n, f, show(v))
                if k == "exc":
                    ctx.bad("numbered usage exists", "%s: %s" % (inp, lib.exc_str(r)), r.where, inp)
                    return
                u, name = r
                ctx.req(isinstance(u, Inst) and us in u.cls.mro, "a usage", lambda: "%s is %s" % (inp, show(u)), wh, inp)
                ctx.req(same(int_of(u), lib.add(base, v)), "numbered usage has its code", lambda: "%s is %s" % (inp, show(int_of(u))), wh, inp)
                w_ = mkstr([n + "." + f + "(", strings.fmt_hole("%d", v) if isinstance(v, AInt) else str(v), ")"])
                ctx.req(strings.renorm(name) == strings.renorm(w_), "numbered usage is named after itself", lambda: "%s is named %r" % (inp, name), wh, inp)
            ctx.explore(n, fn, judge)
        for i in list(range(0, 128)) + [128, 1000, 65535]:
            def fn():
                if i >= 128:
                    u = call(fun, i)
                return m(us, "lookup", base + i)

            def judge(k, r):
                inp = "lookup(0x%x)" % (base + i)
                if k == "exc":
                    ctx.bad("lookup gives the numbered usage", "%s: %s" % (inp, lib.exc_str(r)), r.where, inp)
                    return
                ctx.req(int_of(r) == base + i and attr(r, "name") == "%s.%s(%d)" % (n, f, i), "lookup gives the numbered usage",
                        lambda: "%s is %s" % (inp, show(r)), wh, inp)
            ctx.explore(n, fn, judge)
    return run


def t_unique(ctx):
    seen = {}
    for n in modules():
        try:
            cs = constants(n)
        except lib.Anchor:
            continue
        for k, u in cs.items():
            v = int_of(u)
            inp = "%s.%s" % (n, k)
            o = seen.setdefault(v, (inp, u))
            ctx.req(o[1] is u, "no two constants share a code", lambda: "%s and %s are both %s" % (o[0], inp, show(v)), "hrdc/usage/%s.py" % n, inp)
            for nn, (f, base) in NUMBERED.items():
                ctx.req(v >> 16 != base >> 16, "no two constants share a code", lambda: "%s is on the page of %s" % (inp, f), "hrdc/usage/%s.py" % n, inp)
    # every name exported to authors is the module of that name
    for n in sorted(PAGES):
        if n == "arcade" or not lib.has("hrdc.usage:" + n):
            continue
        ctx.req(get("hrdc.usage:" + n) is lib.mod("hrdc.usage." + n), "module exported under its name", "hrdc.usage.%s" % n, "hrdc/usage/__init__.py", n)


def tasks(tier):
    lib.load()
    for n in modules():
        yield "module." + n, t_module(n)
    for n in NUMBERED:
        yield "numbered." + n, t_numbered(n)
    yield "unique", t_unique
