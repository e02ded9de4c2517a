"""C14: named constants behave as their integer."""
import itertools
from .codec import *
from ..lib import add, mkstr, Hole

RULE = ("For abstract integers a, b: every operator applied to NamedConstant(a) (and Usage(a)) with an int, NamedConstant "
        "or Usage operand, on the sides the class supports, has the value number of the same operator on a and b; each "
        "comparison's outcome agrees with the partition's store; hash equals the int's; str is the name; dictionaries "
        "keyed by either find the other.")
BOUNDS = "operands unbounded (shift counts 0..40)"
MIN_OBLIGATIONS = {"quick": 300}
NC = "hrdc.util:NamedConstant"
US = "hrdc.usage:Usage"


def makers():
    nc, us = get(NC), get(US)
    return {
        "int": lambda v, n: v,
        "NamedConstant": lambda v, n: call(nc, n, v),
        "Usage": lambda v, n: call(us, n, v, register=False),
    }


BINARY = ["+", "*", "&", "|", "<<", ">>"]


def holds(op, a, b):
    """The outcome op(a, b) the store knows, or None."""
    from ..engine.num import Poly
    st = w.store
    d = st.simp(st.poly(a).add(st.poly(b), -1))
    if op in ("__eq__", "__ne__"):
        r = w.known_zero(d)
        return r if op == "__eq__" or r is None else not r
    lo, hi = st.interval(d)
    t = {"__lt__": (hi < 0, lo >= 0), "__gt__": (lo > 0, hi <= 0)}[op]
    return True if t[0] else False if t[1] else None


def t_binary(l, r):
    def run(ctx):
        mk = makers()
        for op, (nl, nr) in itertools.product(BINARY, (("A", "B"), ("A", "A"))):
            if l == "int" and op not in ("&", "|"):
                continue
            a = sym("a")
            b = sym("b", 0, 40) if op in ("<<", ">>") else sym("b")

            def fn():
                if op in ("<<", ">>"):
                    w.concretize(b)
                x, y = mk[l](a, nl), mk[r](b, nr)
                return I.arith(op, x, y)

            def judge(k, v):
                inp = "%s(a) %s %s(b)" % (l, op, r)
                if k == "exc":
                    ctx.bad("operator supported", "%s raises %s" % (inp, lib.exc_str(v)), v.where, inp)
                    return
                want = I.arith(op, a, b)
                ctx.req(same(int_of(v), want), "operator acts on the integers",
                        lambda: "%s gives %s instead of %s" % (inp, show(v), show(want)), "hrdc/util/named_constant.py", inp)
            ctx.explore("%s %s %s" % (l, op, r), fn, judge)
    return run


def t_compare(l, r):
    def run(ctx):
        mk = makers()
        ops = ["__eq__", "__ne__", "__lt__", "__gt__"]
        for op in ops:
            # ordering is defined by <: constant on the left of <, or on the right of >
            if op == "__lt__" and l == "int" or op == "__gt__" and r == "int":
                continue
            for bb, (nl, nr) in itertools.product(("free", "equal"), (("A", "B"), ("A", "A"), ("m.A", "n.A"), ("m.A", "m.B"), ("5", "0x5"))):
                a = sym("a")
                b = sym("b") if bb == "free" else a

                def fn():
                    x, y = mk[l](a, nl), mk[r](b, nr)
                    return I.truth(I.compare(op, x, y))

                def judge(k, v):
                    inp = "%s(a) %s %s(b)" % (l, op, r)
                    if k == "exc":
                        ctx.bad("comparison supported", "%s raises %s" % (inp, lib.exc_str(v)), v.where, inp)
                        return
                    ctx.req(holds(op, a, b) is bool(v), "comparison agrees with the integers",
                            lambda: "%s is %s where a=%s, b=%s" % (inp, v, show(a), show(b)), "hrdc/util/named_constant.py", inp)
                ctx.explore("%s %s %s" % (l, op, r), fn, judge)
    return run


def t_unary(ctx):
    mk = makers()
    for l in ("NamedConstant", "Usage"):
        a = sym("a")
        name = mkstr([Hole("arg", "name", alphabet=None)])

        def judge_of(what, want):
            def judge(k, v):
                if k == "exc":
                    ctx.bad(what, "%s: %s" % (l, lib.exc_str(v)), v.where)
                    return
                ctx.req(want(v), what, lambda: "%s(name, a) gives %s" % (l, show(v)), "hrdc/util/named_constant.py")
            return judge
        ctx.explore("int", lambda: I.call(I.BUILTINS["int"], [mk[l](a, name)], {}), judge_of("int() is the value", lambda v: same(v, a)))
        ctx.explore("invert", lambda: I.unary("~", mk[l](a, name)), judge_of("~ inverts", lambda v: same(int_of(v), I.unary("~", a))))
        ctx.explore("hash", lambda: I.hash_(mk[l](a, name)), judge_of("hash is the integer's", lambda v: same(v, I.hash_(a))))
        ctx.explore("str", lambda: I.str_(mk[l](a, name)), judge_of("str is the name", lambda v: v == name))
        ctx.explore("key", lambda: I.dict_get(I.mkdict([(a, "hit")]), mk[l](a, name), "miss"),
                    judge_of("found in a dictionary keyed by its integer", lambda v: v == "hit"))
        ctx.explore("value", lambda: attr(mk[l](a, name), "value"), judge_of("value attribute", lambda v: same(int_of(v), a)))
        b = sym("b")

        def other():
            if lib.eqv(a, b):
                raise lib.Infeasible()
            return I.dict_get(I.mkdict([(b, "hit")]), mk[l](a, name), "miss")
        ctx.explore("other key", other, judge_of("not found under another integer", lambda v: v == "miss"))


def tasks(tier):
    for l in ("NamedConstant", "Usage", "int"):
        for r in ("int", "NamedConstant", "Usage"):
            if l == r == "int":
                continue
            yield "%s,%s.arith" % (l, r), t_binary(l, r)
            yield "%s,%s.compare" % (l, r), t_compare(l, r)
    yield "unary", t_unary
