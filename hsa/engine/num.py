"""Abstract numbers.

The numeric domain is: polynomials with integer coefficients over *atoms*
(value-number symbols, or opaque operator nodes such as `mod`, `and`, `log`),
together with an abstract store that keeps, per atom, an interval, plus a
substitution (equality classes), a set of disequalities and bounds on linear
forms.  A test that the store cannot decide partitions the abstract state:
each side is analysed with the store refined by the test.  No solver and no
path formula is involved; everything the analysis knows is in the store.
"""
import math

INF = float("inf")


class Infeasible(Exception):
    """The current partition is empty (its store is contradictory)."""


class Unsupported(Exception):
    """The analysed source uses something the abstract semantics lacks."""


class KLimit(Exception):
    """An iteration over an abstract bound went past the k limit."""


class Atom:
    __slots__ = ("id",)


_next_id = [0]


def _fresh_id():
    _next_id[0] += 1
    return _next_id[0]


class Sym(Atom):
    __slots__ = ("name", "lo", "hi")

    def __init__(self, name, lo=-INF, hi=INF):
        self.id = _fresh_id()
        self.name = name
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return self.name


_nodes = {}


class Node(Atom):
    """Opaque operator applied to polynomials / constants; interned."""
    __slots__ = ("op", "args")

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(str, self.args)))


def node(op, *args):
    key = (op,) + args
    n = _nodes.get(key)
    if n is None:
        n = Node()
        n.id = _fresh_id()
        n.op = op
        n.args = args
        _nodes[key] = n
    return n


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset((tuple(x.id for x in m), c) for m, c in self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def cval(self):
        return self.t.get((), 0)

    def add(self, o, k=1):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + k * c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    def scale(self, k):
        if not k:
            return Poly({})
        return Poly({m: c * k for m, c in self.t.items()})

    def mul(self, o):
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2, key=lambda a: a.id))
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Poly(t)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: tuple(a.id for a in x[0])):
            b = "*".join(map(str, m))
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(b)
            else:
                out.append("%d*%s" % (c, b))
        return " + ".join(out)


class AInt:
    """An abstract Python int (never a constant after norm())."""
    __slots__ = ("p", "_v", "_n")

    def __init__(self, p):
        self.p = p
        self._v = -1
        self._n = None

    def __repr__(self):
        return "<%s>" % (self.p,)


class AFloat:
    """An abstract float: an interval-valued operator node."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<float %s>" % (self.n,)


def _mulb(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


class Store:
    def __init__(self):
        self.iv = {}
        self.subst = {}
        self.diseq = frozenset()
        self.bounds = {}
        self.version = 0
        self.cache = {}

    def snapshot(self):
        return (dict(self.iv), dict(self.subst), self.diseq, dict(self.bounds))

    def restore(self, s):
        self.iv, self.subst, self.diseq, self.bounds = dict(s[0]), dict(s[1]), s[2], dict(s[3])
        self.version = _fresh_id()

    # -- simplification ------------------------------------------------------
    def simp(self, p):
        iv, subst = self.iv, self.subst
        for m in p.t:
            for a in m:
                if isinstance(a, Node) or a in subst:
                    break
                x = iv.get(a)
                if x is not None and x[0] == x[1]:
                    break
            else:
                continue
            break
        else:
            return p
        out = Poly({})
        changed = False
        for m, c in p.t.items():
            q = Poly({(): c})
            for a in m:
                r = self.simp_atom(a)
                q = q.mul(r)
            out = out.add(q)
        return out

    def simp_atom(self, a):
        s = self.subst.get(a)
        if s is not None:
            r = self.simp(s)
            return r
        if isinstance(a, Node):
            c = self.cache.get(a)
            if c is not None and c[0] == self.version:
                return c[1]
            r = self._simp_node(a)
            self.cache[a] = (self.version, r)
            return r
        lo, hi = self.iv.get(a, (a.lo, a.hi))
        if lo == hi:
            return Poly.const(lo)
        return Poly.atom(a)

    def _simp_node(self, a):
        new = [self.simp(x) if isinstance(x, Poly) else x for x in a.args]
        if a.op in BUILDERS:
            r = BUILDERS[a.op](self, *new)
            if r != Poly.atom(a):
                return self.simp(r)
        elif tuple(new) != a.args:
            r = Poly.atom(node(a.op, *new))
            return self.simp(r)
        lo, hi = self.atom_iv(a)
        if lo == hi and isinstance(lo, int):
            return Poly.const(lo)
        return Poly.atom(a)

    def norm(self, v):
        if isinstance(v, AInt):
            if v._v == self.version:
                return v._n
            p = self.simp(v.p)
            if p.is_const():
                r = p.cval()
            elif p is v.p or p == v.p:
                r = v
            else:
                r = AInt(p)
            v._v = self.version
            v._n = r
            return r
        return v

    def poly(self, v):
        if isinstance(v, AInt):
            return self.simp(v.p)
        if isinstance(v, (bool, int)):
            return Poly.const(int(v))
        raise Unsupported("not an integer: %r" % (v,))

    # -- intervals -----------------------------------------------------------
    def atom_iv(self, a):
        if isinstance(a, Sym):
            return self.iv.get(a, (a.lo, a.hi))
        lo, hi = node_iv(self, a)
        x = self.iv.get(a)
        if x:
            lo, hi = max(lo, x[0]), min(hi, x[1])
        return lo, hi

    def interval(self, p):
        lo, hi = self.interval_(p)
        # b - x % b lies in [1, b]
        for m, c in p.t.items():
            if len(m) == 1 and isinstance(m[0], Node) and m[0].op == "mod":
                b = m[0].args[1]
                if len(b.t) == 1:
                    (bm, bc), = b.t.items()
                    cb = p.t.get(bm, 0)
                    if bm and bc == 1 and c * cb < 0 and self.interval_(b)[0] > 0:
                        k = min(abs(c), abs(cb)) * (1 if cb > 0 else -1)
                        rest = p.add(Poly({bm: k, m: -k}), -1)
                        l, h = self.interval_(rest)
                        bh = self.interval_(b)[1]
                        if k > 0:
                            l, h = l + k, h + _mulb(k, bh)
                        else:
                            l, h = l + _mulb(k, bh), h + k
                        lo, hi = max(lo, l), min(hi, h)
        return lo, hi

    def interval_(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            if len(m) == 2 and m[0] is m[1]:
                l, h = self.atom_iv(m[0])
                cand = [_mulb(l, l), _mulb(h, h)]
                a, b = (0 if l <= 0 <= h else min(cand)), max(cand)
            else:
                a = b = 1
                for at in m:
                    l, h = self.atom_iv(at)
                    cand = [_mulb(a, l), _mulb(a, h), _mulb(b, l), _mulb(b, h)]
                    a, b = min(cand), max(cand)
            if c > 0:
                lo += _mulb(c, a)
                hi += _mulb(c, b)
            else:
                lo += _mulb(c, b)
                hi += _mulb(c, a)
        # bounds recorded on the same linear form
        if len(p.t) > 1 or (() not in p.t):
            h, k, sgn = homog(p)
            b = self.bounds.get(h)
            if b:
                bl, bh = b
                if sgn < 0:
                    bl, bh = -bh, -bl
                lo = max(lo, bl + k)
                hi = min(hi, bh + k)
        return lo, hi

    def narrow(self, a, lo=-INF, hi=INF):
        l, h = self.atom_iv(a)
        nl, nh = max(l, lo), min(h, hi)
        if nl > nh:
            raise Infeasible()
        if (nl, nh) != (l, h):
            self.iv[a] = (nl, nh)
            self.version = _fresh_id()
            self.recheck()

    def recheck(self):
        for d in self.diseq:
            q = self.simp(d)
            if q.is_const() and q.cval() == 0:
                raise Infeasible()

    def assume_ne(self, p):
        """p != 0"""
        p = self.simp(p)
        if p.is_const():
            if p.cval() == 0:
                raise Infeasible()
            return
        self.diseq = self.diseq | {canon_sign(p)}
        # endpoint trimming for  +-atom + c
        nc = [m for m in p.t if m]
        if len(nc) == 1 and len(nc[0]) == 1 and abs(p.t[nc[0]]) == 1:
            a = nc[0][0]
            v = -p.cval() * p.t[nc[0]]
            l, h = self.atom_iv(a)
            if l == v:
                self.narrow(a, lo=v + 1)
            elif h == v:
                self.narrow(a, hi=v - 1)
        self.version = _fresh_id()

    def assume_zero(self, p):
        """p == 0: refine the store."""
        p = self.simp(p)
        if p.is_const():
            if p.cval() != 0:
                raise Infeasible()
            return
        lo, hi = self.interval(p)
        if lo > 0 or hi < 0:
            raise Infeasible()
        if canon_sign(p) in self.diseq:
            raise Infeasible()
        # radix decomposition: p = g*H + L with |L| < g
        gs = sorted({abs(c) for m, c in p.t.items() if m and abs(c) > 1})
        for g in gs:
            H = Poly({m: c for m, c in p.t.items() if c % g == 0 and m})
            L = p.add(H, -1)
            l, h = self.interval(L)
            if -g < l and h < g and H.t:
                # p == 0 -> L is a multiple of g with |L| < g -> L == 0
                if not L.is_const():
                    self.assume_zero(L)
                elif L.cval() != 0:
                    raise Infeasible()
                H = self.simp(H)
                if H.is_const():
                    if H.cval() != 0:
                        raise Infeasible()
                    return
                k = math.gcd(*[abs(c) for c in H.t.values()])
                if k > 1:
                    H = Poly({m: c // k for m, c in H.t.items()})
                    self.assume_zero(H)
                    return
                break
        # solve for an atom occurring linearly with coefficient +-1
        cands = []
        for m, c in p.t.items():
            if len(m) == 1 and abs(c) == 1:
                a = m[0]
                rest = Poly({k: v for k, v in p.t.items() if k != m})
                if a in deep_atoms(rest):
                    continue
                cands.append((isinstance(a, Node), -a.id, a, c, rest))
        if not cands:
            # coefficient k: single atom  k*a + c == 0
            nc = [m for m in p.t if m]
            if len(nc) == 1 and len(nc[0]) == 1:
                k, c = p.t[nc[0]], p.cval()
                if c % k:
                    raise Infeasible()
                self.set_subst(nc[0][0], Poly.const(-c // k))
                return
            h, k, sgn = homog(p)
            self.bounds[h] = (-k * sgn, -k * sgn)
            self.version = _fresh_id()
            return
        cands.sort(key=lambda x: x[:2])
        _, _, a, c, rest = cands[0]
        self.set_subst(a, rest.scale(-1) if c == 1 else rest)

    def set_subst(self, a, e):
        lo, hi = self.atom_iv(a)
        el, eh = self.interval(e)
        if el > hi or eh < lo:
            raise Infeasible()
        # transfer the interval to a single-atom expression
        nc = [m for m in e.t if m]
        if len(nc) == 1 and len(nc[0]) == 1:
            b, k, c = nc[0][0], e.t[nc[0]], e.cval()
            if k == 1:
                self.narrow(b, lo - c, hi - c)
            elif k == -1:
                self.narrow(b, c - hi, c - lo)
        elif len(nc) == 0:
            if not lo <= e.cval() <= hi:
                raise Infeasible()
        self.subst[a] = e
        self.version = _fresh_id()
        self.recheck()

    def assume_le(self, p, c):
        """p <= c for polynomial p, constant c."""
        p = self.simp(p)
        k = p.cval()
        nc = [m for m in p.t if m]
        if not nc:
            if k > c:
                raise Infeasible()
            return
        if len(nc) == 1 and len(nc[0]) == 1:
            a, q = nc[0][0], p.t[nc[0]]
            b = c - k
            if q > 0:
                self.narrow(a, hi=b // q)
            else:
                self.narrow(a, lo=-((b) // (-q)))
            self.invert(a)
            return
        h, kk, sgn = homog(p)
        lo, hi = self.bounds.get(h, (-INF, INF))
        if sgn > 0:
            hi = min(hi, c - kk)
        else:
            lo = max(lo, kk - c)
        if lo > hi:
            raise Infeasible()
        self.bounds[h] = (lo, hi)
        self.version = _fresh_id()

    def invert(self, a):
        """Propagate a narrowed node's interval to its operand when the
        operator is monotone and exactly invertible on intervals."""
        if not isinstance(a, Node) or a.op not in MONO:
            return
        # handled by partitioning on the base symbol (see World.decide_le)


def deep_atoms(p):
    out = set()
    stack = list(p.atoms())
    while stack:
        a = stack.pop()
        if a in out:
            continue
        out.add(a)
        if isinstance(a, Node):
            for x in a.args:
                if isinstance(x, Poly):
                    stack.extend(x.atoms())
                elif isinstance(x, Node):
                    stack.append(x)
    return out


def base_syms(p, st):
    return sorted((a for a in deep_atoms(st.simp(p)) if isinstance(a, Sym)), key=lambda a: a.id)


def canon_sign(p):
    items = sorted(((tuple(a.id for a in m), c) for m, c in p.t.items() if m))
    if items and items[0][1] < 0:
        return p.scale(-1)
    return p


def homog(p):
    """Split p = sgn*h + k with h canonical (no constant, positive lead)."""
    k = p.cval()
    h = Poly({m: c for m, c in p.t.items() if m})
    items = sorted(((tuple(a.id for a in m), c) for m, c in h.t.items()))
    if items and items[0][1] < 0:
        return h.scale(-1), k, -1
    return h, k, 1


MONO = {"bitlen", "trunc", "floor", "ceil", "log", "fadd", "fmul", "fdiv", "round", "float"}


def _float_args(st, n):
    out = []
    for x in n.args:
        if isinstance(x, Poly):
            out.append(st.interval(x))
        elif isinstance(x, Node):
            out.append(st.atom_iv(x))
        else:
            out.append((x, x))
    return out


def node_iv(st, n):
    op = n.op
    if op == "byte":
        return 0, 255
    if op == "mod":
        lo, hi = st.interval(n.args[0])
        bl, bh = st.interval(n.args[1])
        if bl > 0:
            if lo >= 0:
                return 0, min(hi, bh - 1)
            return 0, bh - 1
        return -INF, INF
    if op == "and":
        a, b = n.args
        al, ah = st.interval(a)
        bl, bh = st.interval(b)
        if bl >= 0 and al >= 0:
            return 0, min(ah, bh)
        if bl >= 0:
            return 0, bh
        if al >= 0:
            return 0, ah
        return -INF, INF
    if op in ("or", "xor"):
        al, ah = st.interval(n.args[0])
        bl, bh = st.interval(n.args[1])
        if al >= 0 and bl >= 0:
            m = max(ah, bh)
            hi = INF if m == INF else (1 << int(m).bit_length()) - 1
            return (max(al, bl) if op == "or" else 0), hi
        return -INF, INF
    if op == "shr":
        lo, hi = st.interval(n.args[0])
        k = n.args[1]
        return (lo if lo == -INF else lo >> k), (hi if hi == INF else hi >> k)
    if op == "floordiv":
        lo, hi = st.interval(n.args[0])
        bl, bh = st.interval(n.args[1])
        if bl > 0 and lo > -INF and hi < INF and bh < INF:
            c = [lo // bl, lo // bh, hi // bl, hi // bh]
            return min(c), max(c)
        return -INF, INF
    if op == "bitlen":
        lo, hi = st.interval(n.args[0])
        if lo >= 0:
            return int(lo).bit_length(), (INF if hi == INF else int(hi).bit_length())
        if hi <= 0:
            return int(-hi).bit_length(), (INF if lo == -INF else int(-lo).bit_length())
        m = max(-lo, hi)
        return 0, (INF if m == INF else int(m).bit_length())
    if op == "log":
        (lo, hi), (b, _) = _float_args(st, n)
        f = (lambda v: math.log2(v)) if b == "2" else (lambda v: math.log10(v)) if b == "10" \
            else (lambda v: math.log(v)) if b == "e" else (lambda v: math.log(v, b))
        l = f(lo) if lo > 0 and lo < INF else -INF
        h = f(hi) if 0 < hi < INF else (INF if hi > 0 else -INF)
        return l, h
    if op in ("trunc", "floor", "ceil", "round"):
        (lo, hi), = _float_args(st, n)
        f = {"trunc": math.trunc, "floor": math.floor, "ceil": math.ceil, "round": round}[op]
        return (lo if lo == -INF else f(lo)), (hi if hi == INF else f(hi))
    if op == "float":
        (lo, hi), = _float_args(st, n)
        return float(lo), float(hi)
    if op == "fadd":
        (a, b), (c, d) = _float_args(st, n)
        return a + c, b + d
    if op == "fmul":
        (a, b), (c, d) = _float_args(st, n)
        k = [_mulb(a, c), _mulb(a, d), _mulb(b, c), _mulb(b, d)]
        return min(k), max(k)
    if op == "fdiv":
        (a, b), (c, d) = _float_args(st, n)
        if c > 0 or d < 0:
            k = [a / c, a / d, b / c, b / d]
            return min(k), max(k)
        return -INF, INF
    if op == "len":
        return 0, INF
    if op == "nonneg":
        return 0, INF
    return -INF, INF


def rebuild(st, op, args):
    f = BUILDERS.get(op)
    if f is None:
        return Poly.atom(node(op, *args))
    return f(st, *args)


def P(v):
    return v if isinstance(v, Poly) else Poly.const(v)


def split_radix(st, p, g):
    """p == g*H + L with L's interval inside [0, g): return (H, L) or None."""
    H, L = {}, {}
    for m, c in p.t.items():
        if m == ():
            H_c, L_c = divmod(c, g)
            if H_c:
                H[()] = H_c
            if L_c:
                L[()] = L_c
        elif c % g == 0:
            H[m] = c // g
        else:
            L[m] = c
    L = Poly(L)
    lo, hi = st.interval(L)
    if 0 <= lo and hi < g:
        return Poly(H), L
    # move a carry: L in [k*g, (k+1)*g)
    if lo > -INF and hi < INF and lo // g == hi // g:
        k = int(lo // g)
        L = L.add(Poly.const(-k * g))
        return Poly(H).add(Poly.const(k)), L
    return None


def b_byte(st, p, i):
    if p.is_const():
        return Poly.const((p.cval() >> (8 * i)) & 0xff)
    lo, hi = st.interval(p)
    if i == 0 and 0 <= lo and hi <= 255:
        return p
    if lo > -INF and hi < INF and int(lo) >> (8 * i) == int(hi) >> (8 * i):
        return Poly.const((int(lo) >> (8 * i)) & 0xff)
    return Poly.atom(node("byte", p, i))


def b_mod(st, a, b):
    if a.is_const() and b.is_const():
        if b.cval() == 0:
            raise Unsupported("modulo zero")
        return Poly.const(a.cval() % b.cval())
    if b.is_const() and b.cval() > 0:
        g = b.cval()
        if g == 1:
            return Poly.const(0)
        r = split_radix(st, a, g)
        if r is not None:
            return r[1]
        # drop multiples of g; x % (k*g) counts as x
        a2 = Poly({})
        ch = False
        for m, c in a.t.items():
            t = Poly({(): c})
            for x in m:
                if isinstance(x, Node) and x.op == "mod" and x.args[1].is_const() and x.args[1].cval() > 0 and x.args[1].cval() % g == 0:
                    t = t.mul(x.args[0])
                    ch = True
                else:
                    t = t.mul(Poly.atom(x))
            a2 = a2.add(t)
        if ch:
            return b_mod(st, a2, b)
        a2 = Poly({m: c % g for m, c in a.t.items() if c % g})
        if a2.is_const():
            return a2
        r = split_radix(st, a2, g)
        if r is not None:
            return r[1]
        return Poly.atom(node("mod", a2, b))
    if a == b:
        return Poly.const(0)
    # modulo b: x % b counts as x, multiples of the atom b as 0
    if not b.is_const() and st.interval(b)[0] > 0:
        ba = next(iter(b.t))[0] if len(b.t) == 1 and len(next(iter(b.t))) == 1 and b.t[next(iter(b.t))] == 1 else None
        for _ in range(8):
            q = Poly({})
            ch = False
            for m, c in a.t.items():
                if ba is not None and ba in m:
                    ch = True
                    continue
                t = Poly({(): c})
                for x in m:
                    if isinstance(x, Node) and x.op == "mod" and x.args[1] == b:
                        t = t.mul(x.args[0])
                        ch = True
                    else:
                        t = t.mul(Poly.atom(x))
                q = q.add(t)
            a = q
            if not ch:
                break
        if a.is_const() and a.cval() == 0:
            return a
    lo, hi = st.interval(a)
    bl, bh = st.interval(b)
    if lo >= 0 and hi < bl:
        return a
    return Poly.atom(node("mod", a, b))


def b_shr(st, a, k):
    if a.is_const():
        return Poly.const(a.cval() >> k)
    if k == 0:
        return a
    r = split_radix(st, a, 1 << k)
    if r is not None:
        return r[0]
    return Poly.atom(node("shr", a, k))


def b_floordiv(st, a, b):
    if a.is_const() and b.is_const():
        if b.cval() == 0:
            raise Unsupported("division by zero")
        return Poly.const(a.cval() // b.cval())
    if b.is_const() and b.cval() > 0 and b.cval() & (b.cval() - 1) == 0:
        return b_shr(st, a, b.cval().bit_length() - 1)
    if b.is_const() and b.cval() > 0:
        g = b.cval()
        if g == 1:
            return a
        r = split_radix(st, a, g)
        if r is not None:
            return r[0]
    return Poly.atom(node("floordiv", a, b))


def b_and(st, a, b):
    if a.is_const() and b.is_const():
        return Poly.const(a.cval() & b.cval())
    if a.is_const():
        a, b = b, a
    if b.is_const():
        m = b.cval()
        if m == 0:
            return Poly.const(0)
        if m == -1:
            return a
        if m > 0 and (m & (m + 1)) == 0:
            return b_mod(st, a, Poly.const(m + 1)) if True else None
        if m > 0:
            # low part only matters
            bl = m.bit_length()
            r = split_radix(st, a, 1 << bl)
            if r is not None:
                a = r[1]
                if a.is_const():
                    return Poly.const(a.cval() & m)
            # trailing zeros of the mask: (H*g + L) & m == ((H & (m>>k)) << k)
            k = (m & -m).bit_length() - 1
            if k:
                r = split_radix(st, a, 1 << k)
                if r is not None:
                    return b_and(st, r[0], Poly.const(m >> k)).scale(1 << k)
    elif a == b:
        return a
    else:
        if b.__hash__() < a.__hash__():
            a, b = b, a
    return Poly.atom(node("and", a, b))


def b_or(st, a, b):
    if a.is_const() and b.is_const():
        return Poly.const(a.cval() | b.cval())
    if a.is_const() and a.cval() == 0:
        return b
    if b.is_const() and b.cval() == 0:
        return a
    if a == b:
        return a
    for x, y in ((a, b), (b, a)):
        lo, hi = st.interval(y)
        if lo >= 0 and hi < INF:
            g = 1 << int(hi).bit_length()
            if all(c % g == 0 for c in x.t.values()):
                return x.add(y)
    # (x & c) forms stay opaque
    if b.__hash__() < a.__hash__():
        a, b = b, a
    return Poly.atom(node("or", a, b))


def b_xor(st, a, b):
    if a.is_const() and b.is_const():
        return Poly.const(a.cval() ^ b.cval())
    if a == b:
        return Poly.const(0)
    if b.__hash__() < a.__hash__():
        a, b = b, a
    return Poly.atom(node("xor", a, b))


def b_bitlen(st, a):
    if a.is_const():
        return Poly.const(int(a.cval()).bit_length())
    return Poly.atom(node("bitlen", a))


BUILDERS = {
    "byte": b_byte,
    "mod": b_mod,
    "shr": b_shr,
    "floordiv": b_floordiv,
    "and": b_and,
    "or": b_or,
    "xor": b_xor,
    "bitlen": b_bitlen,
}
