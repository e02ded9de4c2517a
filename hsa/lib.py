"""What the checks share: access to the analysed package, abstract inputs,
judging of partitions, and bookkeeping of what was analysed."""
import ast
import os

from .engine import interp as I
from .engine.interp import w
from .engine import num, strings, witness, builtins_ as B
from .engine.num import AInt, AFloat, Poly, Sym, Node, Infeasible, Unsupported, KLimit, INF
from .engine.objs import (Inst, Cls, AList, ADict, ASet, AStr, ABytes, Hole, Mod, Func, Builtin,
                          BoundMethod, MISSING, mkstr, mkbytes)
from .engine.world import PyExc, Diverges
from .engine.compile import compile_script

MODS = ["hrdc", "hrdc.util", "hrdc.util.named_constant", "hrdc.usage", "hrdc.usage.usage", "hrdc.stream",
        "hrdc.stream.stream", "hrdc.stream.item", "hrdc.stream.parser", "hrdc.stream.formatter",
        "hrdc.stream.optimizer", "hrdc.descriptor", "hrdc.descriptor.descriptor",
        "hrdc.descriptor.streamer", "hrdc.descriptor.extractor", "hrdc.descriptor.dumper",
        "hrdc.descriptor.compiler", "hrdc.converter",
        "hrdc.stream.comparer", "hrdc.descriptor.test"]

HARNESS = '''
class Sink:
    def __init__(self):
        self.items = []
        self.closed = 0
        self.late = 0
    def append(self, i):
        if self.closed:
            self.late += 1
        self.items.append(i)
    def close(self):
        self.closed += 1

class Log:
    def __init__(self):
        self.log = []
    def enter(self, e):
        self.log.append(("enter", e))
    def leave(self, e):
        self.log.append(("leave", e))
    def element(self, e):
        self.log.append(("element", e))

class Case:
    failureException = AssertionError
    def __init__(self):
        self.checks = 0
    def fail(self, msg = None):
        raise AssertionError(msg)
    def assertEqual(self, a, b, msg = None):
        self.checks += 1
        if not (a == b):
            raise AssertionError(msg)
    def assertNotEqual(self, a, b, msg = None):
        if a == b:
            raise AssertionError(msg)
    def assertTrue(self, a, msg = None):
        if not a:
            raise AssertionError(msg)
    def assertFalse(self, a, msg = None):
        if a:
            raise AssertionError(msg)
    def assertIs(self, a, b, msg = None):
        if a is not b:
            raise AssertionError(msg)
    def assertIsNone(self, a, msg = None):
        if a is not None:
            raise AssertionError(msg)
    def assertLess(self, a, b, msg = None):
        if not (a < b):
            raise AssertionError(msg)
    def assertLessEqual(self, a, b, msg = None):
        if not (a <= b):
            raise AssertionError(msg)
    def assertGreater(self, a, b, msg = None):
        if not (a > b):
            raise AssertionError(msg)
    def assertGreaterEqual(self, a, b, msg = None):
        if not (a >= b):
            raise AssertionError(msg)
    def assertIn(self, a, b, msg = None):
        if a not in b:
            raise AssertionError(msg)
    assertSequenceEqual = assertEqual
    assertListEqual = assertEqual
    assertTupleEqual = assertEqual
    assertCountEqual = assertEqual
'''


class Anchor(Exception):
    """An anchor of the property (public name) is gone."""


def load():
    if "hsa_harness" in I.MODULES:
        return
    for m in MODS:
        try:
            I.import_module(m)
        except PyExc as e:
            raise Anchor("import of %s fails: %s" % (m, exc_str(e)))
    I.MODULES["hsa_harness"] = script(HARNESS, "hsa_harness")
    w.epoch = num._fresh_id()
    del w.log[:]


def script(src, name, ns=None):
    m = Mod(name, "<%s>" % name)
    m.ns["__name__"] = name
    m.ns["__package__"] = ""
    if ns:
        m.ns.update(ns)
    compile_script(ast.parse(src, m.path), m)(m)
    return m


def mod(name):
    m = I.MODULES.get(name)
    if m is None:
        try:
            m = I.import_module(name)
        except PyExc as e:
            raise Anchor("import of %s fails: %s" % (name, exc_str(e)))
    return m


def get(path):
    """'hrdc.stream.item:Usage.lookup' -> abstract value"""
    m, _, names = path.partition(":")
    v = mod(m)
    for n in names.split(".") if names else ():
        if isinstance(v, Mod):
            if n not in v.ns:
                raise Anchor("%s has no %s" % (m, names))
            v = v.ns[n]
        else:
            try:
                v = I.getattr_(v, n)
            except PyExc:
                raise Anchor("%s has no %s" % (m, names))
    return v


def has(path):
    try:
        get(path)
        return True
    except Anchor:
        return False


def call(f, *a, **k):
    return I.call(f, list(a), k)


def m(o, name, *a, **k):
    return I.call(I.getattr_(o, name), list(a), k)


def attr(o, name):
    return I.getattr_(o, name)


def sink():
    return call(get("hsa_harness:Sink"))


def sym(name, lo=-INF, hi=INF):
    return AInt(Poly.atom(Sym(name, lo, hi)))


def lst(*v):
    return AList(list(v))


def int_of(v):
    """The integer value of an int, bool or NamedConstant (abstract)."""
    return I.int_(v)


def known_eq(a, b):
    """True/False when the store decides a == b, else None."""
    pa, pb = w.store.poly(a), w.store.poly(b)
    return w.known_zero(pa.add(pb, -1))


CUR = [None]        # the Ctx being judged
SEARCHES = [0]


def same(a, b):
    """a and b denote the same integer on every state of this partition.

    False only when they differ somewhere: the store says so, or a member of
    the abstract state is found on which they differ.  Neither proved nor
    refuted counts as undecided, not as different."""
    pa, pb = w.store.poly(a), w.store.poly(b)
    d = pa.add(pb, -1)
    k = w.known_zero(d)
    if k is not None:
        return k
    SEARCHES[0] += 1
    wit = None
    if SEARCHES[0] <= 60:
        try:
            wit = witness.find(w.store, d)
        except witness.NoEval:
            pass
    if wit is None:
        if CUR[0] is None:
            return False
        CUR[0].undec(CUR[0].task, "neither proved nor refuted: %s == %s (at %s)" % (pa, pb, loc(w.line)))
        return True
    return False


def may_differ(a, b):
    return known_eq(a, b) is not True


def show(v):
    if isinstance(v, AInt):
        v = w.store.norm(v)
        if not isinstance(v, AInt):
            return hex(v) if v > 9 else str(v)
        lo, hi = w.store.interval(w.store.poly(v))
        r = str(w.store.poly(v))
        if lo > -INF or hi < INF:
            r += " in [%s, %s]" % (lo, hi)
        return r
    if isinstance(v, Inst):
        if "name" in v.d and "value" in v.d:
            return "%s=%s" % (show(v.d["name"]), show(v.d["value"]))
        if "value" in v.d and v.cls.lookup("tag") is not MISSING:
            return "%s(%s)" % (v.cls.name, show(v.d["value"]))
        return "<%s>" % v.cls.name
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(show(x) for x in v) + "]"
    if isinstance(v, AList):
        return show(v.v)
    if isinstance(v, Cls):
        return v.name
    return repr(v)


def exc_str(e):
    v = e.value
    name = v.cls.name if isinstance(v, Inst) else getattr(v, "name", "?")
    a = v.d.get("args", ()) if isinstance(v, Inst) else ()
    return "%s(%s)%s" % (name, ", ".join(show(x) if not isinstance(x, str) else repr(x) for x in a),
                         " at %s" % loc(e.where) if e.where else "")


def exc_name(e):
    return e.value.cls.name if isinstance(e.value, Inst) else getattr(e.value, "name", "?")


def loc(key):
    if not key:
        return "?"
    p = key[0]
    if p.startswith(I.REPO + "/"):
        p = p[len(I.REPO) + 1:]
    return "%s:%d" % (p, key[-1])


def repo_funcs(keys):
    return [k for k in keys if k[0].startswith(I.REPO + "/")]


class Ctx:
    """Collects the outcome of one task of a check."""

    def __init__(self, prop, task):
        self.prop = prop
        self.task = task
        self.obligations = 0
        self.discharged = 0
        self.partitions = 0
        self.violations = []
        self.undecided = []
        self.rules = {}
        self.notes = {}
        self.cases = 0

    def turn(self):
        """0, 1 or 2 for one case after the other, in no simple period."""
        k, s = self.cases, 0
        self.cases += 1
        while k:
            s += k % 3
            k //= 3
        return s % 3

    def ok(self, rule, n=1):
        self.obligations += n
        self.discharged += n
        self.rules[rule] = self.rules.get(rule, 0) + n

    def bad(self, rule, msg, where=None, inp=None):
        """A violated obligation in the current partition.  It counts only if
        the partition is inhabited."""
        self.obligations += 1
        wit = None
        if w.store.iv or w.store.subst or w.store.diseq or w.store.bounds:
            if len(self.violations) < 40:
                try:
                    wit = witness.find(w.store)
                    if wit is None:
                        self.undec(self.task, "violated only in a partition not shown to be inhabited: %s: %s" % (rule, msg))
                        return
                except witness.NoEval as e:
                    self.notes["unevaluated"] = str(e)
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if len(self.violations) < 40:
            fl = ["%s %s" % (loc((k[0], k[2])), k[1]) for k in repo_funcs(w.path_funcs)]
            self.violations.append({
                "rule": rule, "message": msg, "member": {str(k): v for k, v in (wit or {}).items()}, "where": loc(where) if isinstance(where, tuple) else where,
                "input": inp, "functions": fl[-12:], "task": self.task})
        else:
            self.violations.append(None)

    def req(self, cond, rule, msg, where=None, inp=None):
        if cond:
            self.ok(rule)
            return True
        self.bad(rule, msg() if callable(msg) else msg, where, inp() if callable(inp) else inp)
        return False

    def undec(self, what, why):
        self.undecided.append("%s: %s" % (what, why))

    def explore(self, what, fn, judge, limit=200000):
        """Analyse fn on all partitions, judge each final state.

        judge(kind, value): kind 'ok' or 'exc'."""
        def then(kind, value):
            self.partitions += 1
            CUR[0] = self
            try:
                judge(kind, value)
            except PyExc as e:
                self.undec(what, "judging raised " + exc_str(e))
        try:
            w.explore(fn, then, limit)
            return True
        except Unsupported as e:
            self.undec(what, "unsupported: %s (at %s)" % (e, loc(w.line)))
        except KLimit as e:
            self.undec(what, "limit: %s (at %s)" % (e, loc(w.line)))
        except Diverges as e:
            self.bad("terminates", "%s: %s" % (what, e), w.line)
        return False

    def result(self):
        return {"task": self.task, "obligations": self.obligations, "discharged": self.discharged,
                "partitions": self.partitions, "violations": self.violations,
                "undecided": self.undecided, "rules": self.rules, "notes": self.notes,
                "funcs": sorted(repo_funcs(w.funcs)), "covered": len([k for k in w.covered if k[0].startswith(I.REPO + "/")]),
                "forks": w.forks, "steps": w.steps}


def le(a, b):
    """Test a <= b, partitioning when the store does not decide it."""
    return I.truth(I.compare("__le__", a, b))


def eqv(a, b):
    return I.truth(I.compare("__eq__", a, b))


def add(a, b):
    return I.arith("+", a, b)


def sub(a, b):
    return I.arith("-", a, b)


def mul(a, b):
    return I.arith("*", a, b)
