"""The abstract state: store + heap undo log + trace partitioning."""
import math

from .num import (AInt, AFloat, Poly, Node, Sym, Store, Infeasible, Unsupported, KLimit,
                  INF, node, rebuild, BUILDERS, MONO, base_syms, deep_atoms, canon_sign, P)
from . import num
from .objs import Obj


class PyExc(Exception):
    """A Python exception raised by the analysed program."""

    def __init__(self, value, where=None):
        Exception.__init__(self)
        self.value = value
        self.where = where

    def __str__(self):
        return "PyExc(%r)" % (self.value,)


class Diverges(Exception):
    """The analysed program exceeded the step bound on one partition."""


class World:
    def __init__(self):
        self.store = Store()
        self.log = []           # undo log: (obj, snapshot, old stamp)
        self.epoch = 0
        self.vec = None         # decision vector of the innermost exploration
        self.pos = 0
        self.paths = 0
        self.forks = 0
        self.steps = 0
        self.path_steps = 0
        self.max_path_steps = 3_000_000
        self.line = None
        self.stack = []
        self.covered = set()
        self.funcs = set()
        self.path_funcs = {}
        self.frozen_at = None   # birth serial after load: older objects are shared
        self.writes = []        # (obj, where) writes to shared objects
        self.track_writes = False
        self.on_touch = None
        self.decide_cache = {}

    # -- heap ---------------------------------------------------------------
    def touch(self, obj):
        if obj.stamp != self.epoch:
            self.log.append((obj, obj.snap(), obj.stamp))
            obj.stamp = self.epoch
        if self.on_touch is not None:
            self.on_touch(obj)

    def undo_to(self, mark):
        log = self.log
        while len(log) > mark:
            obj, s, st = log.pop()
            obj.unsnap(s)
            obj.stamp = st

    # -- partitioning ----------------------------------------------------------
    def choose(self, n, label=None):
        if self.vec is None:
            raise Unsupported("undecided test outside an exploration: %s" % (label,))
        if self.pos < len(self.vec):
            c = self.vec[self.pos][0]
        else:
            self.vec.append([0, n])
            self.forks += 1
            c = 0
        self.pos += 1
        return c

    def explore(self, fn, then=None, limit=200000):
        """Analyse fn() on every partition; then(kind, value) runs with the
        partition's final state in place.  kind: 'ok' or 'exc'."""
        saved = (self.vec, self.pos, self.path_steps)
        base = self.store.snapshot()
        mark = len(self.log)
        vec = []
        n = 0
        results = []
        try:
            while True:
                self.vec = vec
                self.pos = 0
                self.epoch = num._fresh_id()
                self.path_steps = 0
                self.path_funcs = {}
                stack = list(self.stack)
                try:
                    try:
                        r = ("ok", fn())
                    except PyExc as e:
                        r = ("exc", e)
                    self.stack[:] = stack
                    n += 1
                    self.paths += 1
                    # the continuation runs outside this decision vector
                    self.vec = None
                    if then is not None:
                        results.append(then(*r))
                    else:
                        results.append(r)
                except Infeasible:
                    pass
                finally:
                    self.stack[:] = stack
                    self.undo_to(mark)
                    self.epoch = num._fresh_id()
                    self.store.restore(base)
                if n > limit:
                    raise KLimit("more than %d partitions" % limit)
                while vec and vec[-1][0] + 1 >= vec[-1][1]:
                    vec.pop()
                if not vec:
                    break
                vec[-1][0] += 1
        finally:
            self.vec, self.pos, self.path_steps = saved
        return results

    # -- tests on numbers --------------------------------------------------------
    def _mono_form(self, p):
        """p == k*a + c with a one opaque monotone atom over one symbol with a
        finite interval: return that symbol."""
        nc = [m for m in p.t if m]
        if len(nc) != 1 or len(nc[0]) != 1:
            return None
        a = nc[0][0]
        if not isinstance(a, Node):
            return None
        return self._mono_atom(a)

    def _mono_atom(self, a):
        seen = deep_atoms(Poly.atom(a))
        syms = [x for x in seen if isinstance(x, Sym)]
        if len(syms) != 1:
            return None
        for x in seen:
            if isinstance(x, Node):
                if x.op == "shr":
                    pass
                elif x.op == "floordiv":
                    if not x.args[1].is_const() or x.args[1].cval() <= 0:
                        return None
                elif x.op not in MONO:
                    return None
                for q in x.args:
                    if isinstance(q, Poly) and len(q.atoms()) > 1:
                        return None
                    if isinstance(q, Poly) and any(len(m) > 1 for m in q.t):
                        return None
        s = syms[0]
        lo, hi = self.store.atom_iv(s)
        if lo == -INF or hi == INF:
            return None
        return s

    def _split_mono(self, s, pred):
        """pred(value) -> bool is monotone in s: find the flip and partition."""
        st = self.store
        lo, hi = st.atom_iv(s)

        def at(v):
            old = st.iv.get(s)
            over = st.version
            st.iv[s] = (v, v)
            st.version = num._fresh_id()
            try:
                return pred()
            finally:
                if old is None:
                    st.iv.pop(s, None)
                else:
                    st.iv[s] = old
                st.version = num._fresh_id()
        a, b = at(lo), at(hi)
        if a == b:
            return a
        l, h = lo, hi
        while h - l > 1:
            m = (l + h) // 2
            if at(m) == a:
                l = m
            else:
                h = m
        if self.choose(2, "threshold %s <= %d" % (s, l)) == 0:
            st.narrow(s, hi=l)
            return a
        st.narrow(s, lo=h)
        return b

    def is_zero(self, p):
        st = self.store
        p = st.simp(p)
        if p.is_const():
            return p.cval() == 0
        r = self.known_zero(p)
        if r is not None:
            return r
        s = self._mono_form(p)
        if s is not None:
            # equality with a monotone node: split as  p < 0 / p == 0 / p > 0
            if self._split_mono(s, lambda: st.interval(st.simp(p))[0] > 0):
                return False
            if self._split_mono(s, lambda: st.interval(st.simp(p))[1] < 0):
                return False
            return True
        if self.choose(2, "%s == 0" % (p,)) == 0:
            st.assume_zero(p)
            return True
        st.assume_ne(p)
        return False

    def known_zero(self, p):
        """True / False / None when the store does not know."""
        st = self.store
        p = st.simp(p)
        if p.is_const():
            return p.cval() == 0
        lo, hi = st.interval(p)
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        if canon_sign(p) in st.diseq:
            return False
        gs = {abs(c) for m, c in p.t.items() if m and abs(c) > 1}
        for g in gs:
            L = Poly({m: c for m, c in p.t.items() if c % g})
            l, h = st.interval(L)
            if -g < l and h < g and (l > 0 or h < 0):
                return False
            if not L.t or (l == h == 0):
                # p == g*H: zero iff H is zero
                H = Poly({m: c // g for m, c in p.t.items() if c % g == 0})
                if H.t != p.t:
                    r = self.known_zero(H)
                    if r is not None:
                        return r
            elif -g < l and h < g:
                # zero iff both parts are
                H = Poly({m: c // g for m, c in p.t.items() if c % g == 0})
                if self.known_zero(L) is False or self.known_zero(H) is False:
                    return False
        # diseq of a part that would have to vanish too
        return None

    def is_le(self, p):
        """p <= 0 ?"""
        st = self.store
        p = st.simp(p)
        lo, hi = st.interval(p)
        if hi <= 0:
            return True
        if lo > 0:
            return False
        s = self._mono_form(p)
        if s is not None:
            return self._split_mono(s, lambda: st.interval(st.simp(p))[1] <= 0)
        if self.choose(2, "%s <= 0" % (p,)) == 0:
            st.assume_le(p, 0)
            return True
        st.assume_le(p.scale(-1), -1)
        return False

    def float_le(self, n, c, strict):
        st = self.store
        lo, hi = st.atom_iv(n)
        test = (lambda a, b: a < b) if strict else (lambda a, b: a <= b)
        if test(hi, c):
            return True
        if not test(lo, c):
            return False
        s = self._mono_atom(n)
        if s is None:
            raise Unsupported("float comparison %s" % (n,))
        return self._split_mono(s, lambda: test(st.atom_iv(st_simp_float(st, n))[1], c))

    def concretize(self, v, limit=64):
        v = self.store.norm(v)
        if not isinstance(v, AInt):
            return v
        p = self.store.poly(v)
        lo, hi = self.store.interval(p)
        if hi - lo > limit:
            raise Unsupported("cannot enumerate %s" % (p,))
        for k in range(int(lo), int(hi)):
            if self.is_zero(p.add(Poly.const(-k))):
                return k
        self.store.assume_zero(p.add(Poly.const(-int(hi))))
        return int(hi)


def st_simp_float(st, n):
    return n


w = World()


def reset():
    w.__init__()
    return w
