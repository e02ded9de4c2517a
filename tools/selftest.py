"""Compares the analysis' model of Python with Python itself.

Each snippet defines f(x).  It is interpreted abstractly with x an unknown
integer of a range; in every partition x is then enumerated, and the value of
f must be what Python gives for that x.  Snippets the analysis does not cover
("undecided") are listed: they are no errors."""
import signal, sys, os, ast, textwrap, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from hsa import lib
from hsa.lib import I, w, sym
from hsa.engine import strings as S, witness
from hsa.engine.objs import *
from hsa.engine.num import AInt, AFloat, Unsupported, KLimit
from hsa.engine.world import PyExc, Diverges


class NoHost(Exception):
    pass


def host(v):
    if isinstance(v, AInt):
        v = w.store.norm(v)
        if isinstance(v, AInt):
            raise NoHost("not concrete: %s" % (w.store.poly(v),))
        return v
    if v is None or isinstance(v, (int, str, bytes, float)):
        return v
    if isinstance(v, AStr):
        v = S.renorm(v)
        if isinstance(v, str):
            return v
        raise NoHost("string %r" % (v,))
    if isinstance(v, ABytes):
        return bytes(host(x) for x in I.units(v))
    if isinstance(v, tuple):
        return tuple(host(x) for x in v)
    if isinstance(v, AList):
        return ("list",) + tuple(host(x) for x in v.v)
    if isinstance(v, ADict):
        return ("dict",) + tuple((host(k), host(x)) for k, x in v.e.values())
    if isinstance(v, ASet):
        return ("set",) + tuple(sorted((host(x) for x in v.e.values()), key=repr))
    if isinstance(v, Inst):
        return ("inst", v.cls.name)
    raise NoHost(type(v).__name__)


def canon(v):
    import collections
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes, float)):
        return v
    if isinstance(v, int) and type(v) is int:
        return v
    if type(v) is bytearray:
        return ("list",) + tuple(v)
    if isinstance(v, (list, collections.deque)):
        return ("list",) + tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((canon(k), canon(x)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted((canon(x) for x in v), key=repr))
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(canon(x) for x in v)
    return ("inst", type(v).__name__)


def real(src, x):
    ns = {"__name__": "snippet"}
    exec(compile(src, "<snippet>", "exec"), ns)
    try:
        return ("ok", canon(ns["f"](x)))
    except Exception as e:
        return ("exc", type(e).__name__)


def one(src, lo, hi):
    """list of problems, or a string when undecided"""
    seen = {}

    def fn():
        m = lib.script(src, "snippet")
        x = sym("x", lo, hi) if lo < hi else lo
        e = None
        try:
            r = I.call(m.ns["f"], [x], {})
        except PyExc as ex:
            e = ex
            r = None
        c = w.concretize(x, 1 << 12) if lo < hi else lo
        if e is not None:
            return c, ("exc", lib.exc_name(e))
        return c, ("ok", host(r))

    def then(k, v):
        if k == "exc":
            raise AssertionError("outer exception " + lib.exc_str(v))
        try:
            if witness.find(w.store) is None:
                return
        except witness.NoEval:
            pass
        seen.setdefault(v[0], []).append(v[1])
    signal.alarm(20)
    try:
        w.explore(fn, then, 20000)
    except (Unsupported, KLimit, NoHost) as e:
        return "%s: %s" % (type(e).__name__, e)
    finally:
        signal.alarm(0)
    bad = []
    for x in range(lo, hi + 1):
        want = real(src, x)
        got = seen.get(x, [])
        if not got:
            bad.append("x=%d: no partition, expected %r" % (x, want))
        for g in got:
            if g != want and not (g[0] == "ok" and want[0] == "ok" and repr(g[1]) == repr(want[1])) and not (
                    g[0] == want[0] == "ok" and norm(g[1]) == norm(want[1])):
                bad.append("x=%d: %r, expected %r" % (x, g, want))
    return bad


def norm(v):
    """bool and int alike"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    return v


def alarm(*a):
    raise KLimit("time")


def main():
    signal.signal(signal.SIGALRM, alarm)
    lib.load()
    text = open(os.environ.get("SNIPPETS") or os.path.join(os.path.dirname(os.path.abspath(__file__)), "snippets.txt")).read()
    nb = nu = n = 0
    for part in text.split("\n---\n"):
        part = part.strip("\n")
        if not part:
            continue
        lo, hi = -3, 9
        lines = part.split("\n")
        if lines[0].startswith("# range"):
            lo, hi = map(int, lines[0].split()[2:4])
        body = [l for l in lines if not l.startswith("# range")]
        if not any(l.startswith("def f(") for l in body):
            body = ["def f(x):"] + ["    " + l for l in body[:-1]] + ["    return " + body[-1]]
        src = "\n".join(body)
        if len(sys.argv) > 1 and sys.argv[1] not in src:
            continue
        n += 1
        for l, h in ((lo, hi), (2, 2)):
            try:
                r = one(src, l, h)
            except Exception as e:
                traceback.print_exc()
                r = ["crash %r" % e]
            if isinstance(r, str):
                nu += 1
                print("undecided [%d..%d]: %s\n%s\n" % (l, h, r, textwrap.indent(src, "    ")))
            elif r:
                nb += 1
                print("WRONG [%d..%d]:\n%s\n  %s\n" % (l, h, textwrap.indent(src, "    "), "\n  ".join(r[:4])))
    print("%d snippets, %d wrong, %d undecided" % (n, nb, nu))
    return nb > 0


if __name__ == "__main__":
    sys.exit(main())
