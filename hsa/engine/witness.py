"""Concrete members of an abstract state.

A violated obligation is only reported when the partition it was found in is
shown to be inhabited: an assignment of integers to the value-number symbols
under which every fact in the abstract store evaluates to true (and, for an
undecided equality, under which the two sides evaluate to different numbers).
Nothing of the analysed program is run; only the store's own polynomials and
operator nodes are evaluated."""
import math
import random

from .num import Sym, Node, Poly, INF, deep_atoms


class NoEval(Exception):
    pass


DICTS = {}          # birth -> ADict, for membership nodes
STRS = {}           # strlen node -> (template, its length bounds)


def ev_str(v, env):
    from . import strings
    out = ""
    for p in v.parts:
        if isinstance(p, str):
            out += p
            continue
        if p.kind != "fmt" or len(p.key) != 3:
            raise NoEval("text")
        t = strings.host_fmt(p.key[0], ev_poly(p.key[1], env))
        out += getattr(t, p.key[2])() if p.key[2] else t
    return out


def ev_poly(p, env):
    t = 0
    for m, c in p.t.items():
        x = c
        for a in m:
            x *= ev_atom(a, env)
        t += x
    return t


def _arg(x, env):
    if isinstance(x, Poly):
        return ev_poly(x, env)
    if isinstance(x, Node):
        return ev_atom(x, env)
    return x


def ev_atom(a, env):
    v = env.get(a)
    if v is not None:
        return v
    if isinstance(a, Sym):
        raise NoEval(a)
    if a.op == "strlen" and a in STRS:
        r = env[a] = len(ev_str(STRS[a][0], env))
        return r
    x = [_arg(y, env) for y in a.args]
    op = a.op
    try:
        if op == "byte":
            r = (x[0] >> (8 * x[1])) & 255
        elif op == "mod":
            r = x[0] % x[1]
        elif op == "and":
            r = x[0] & x[1]
        elif op == "or":
            r = x[0] | x[1]
        elif op == "xor":
            r = x[0] ^ x[1]
        elif op == "shr":
            r = x[0] >> x[1]
        elif op == "floordiv":
            r = x[0] // x[1]
        elif op == "bitlen":
            r = int(x[0]).bit_length()
        elif op == "log":
            b = x[1]
            r = math.log2(x[0]) if b == "2" else math.log10(x[0]) if b == "10" else math.log(x[0]) if b == "e" else math.log(x[0], b)
        elif op in ("trunc", "floor", "ceil"):
            r = getattr(math, op)(x[0])
        elif op == "round":
            r = round(x[0])
        elif op == "float":
            r = float(x[0])
        elif op == "fadd":
            r = x[0] + x[1]
        elif op == "fmul":
            r = x[0] * x[1]
        elif op == "fdiv":
            r = x[0] / x[1]
        elif op == "hit":
            d = DICTS.get(x[0])
            if d is None:
                raise NoEval(op)
            r = 1 if x[1] in d.e else 0
        else:
            raise NoEval(op)
    except (ValueError, ZeroDivisionError, OverflowError):
        raise NoEval(op)
    env[a] = r
    return r


def holds(st, env):
    for a, (lo, hi) in st.iv.items():
        if a in STRS and STRS[a][1:] == (lo, hi):
            continue
        if not lo <= ev_atom(a, env) <= hi:
            return False
    for a, p in st.subst.items():
        if ev_atom(a, env) != ev_poly(p, env):
            return False
    for p in st.diseq:
        if ev_poly(p, env) == 0:
            return False
    for h, (lo, hi) in st.bounds.items():
        if not lo <= ev_poly(h, env) <= hi:
            return False
    return True


def find(st, differ=None, tries=3000, seed=7):
    """An assignment satisfying the store (with differ != 0), or None.
    Raises NoEval when the store holds something that cannot be evaluated."""
    polys = list(st.subst.values()) + list(st.diseq) + list(st.bounds)
    if differ is not None:
        polys.append(differ)
    atoms = set(st.iv) | set(st.subst)
    for p in polys:
        atoms |= deep_atoms(p)
    for a in list(atoms):
        if isinstance(a, Node):
            atoms |= deep_atoms(Poly.atom(a))
    for a in list(atoms):
        if a in STRS:
            for x in STRS[a][0].parts:
                if not isinstance(x, str) and x.kind == "fmt":
                    atoms |= deep_atoms(x.key[1])
    syms = sorted((a for a in atoms if isinstance(a, Sym)), key=lambda a: a.id)
    # symbols defined by the substitution are computed, the others chosen
    defd = [a for a in syms if a in st.subst]
    free = [a for a in syms if a not in st.subst]
    consts = {0}
    hits = []
    for p in polys:
        consts.add(p.cval())
        consts.add(-p.cval())
    for a in atoms:
        if isinstance(a, Node) and a.op == "hit":
            d = DICTS.get(a.args[0].cval())
            if d is not None:
                hits.append([k for k in d.e if isinstance(k, int)])
    consts = sorted(consts)
    rnd = random.Random(seed)

    def pick(a, k):
        lo, hi = st.iv.get(a, (a.lo, a.hi))
        l = -(1 << 70) if lo == -INF else int(lo)
        h = (1 << 70) if hi == INF else int(hi)
        r = rnd.randrange(6) if k > 3 else k
        if r == 0:
            v = rnd.choice((l, h)) if k > 3 else l
        elif r == 1:
            v = h if k <= 3 else rnd.randint(l, h)
        elif r == 2:
            b = max(l, 0) if h >= 0 else l
            v = b + rnd.randrange(0, 70)
        elif r == 3:
            v = (1 << rnd.randrange(0, 34)) + rnd.randrange(-1, 2)
        elif r == 4:
            v = rnd.choice(consts) + rnd.randrange(-1, 2)
        else:
            v = rnd.randint(l, h)
            if hits:
                t = rnd.choice(rnd.choice(hits))
                v = rnd.choice((t, t & 0xffff, t >> 16))
        return min(max(v, l), h)

    noev = 0
    for k in range(tries):
        env = {a: pick(a, k) for a in free}
        try:
            for _ in range(len(defd) + 1):
                left = [a for a in defd if a not in env]
                if not left:
                    break
                for a in left:
                    p = st.subst[a]
                    if all(not isinstance(x, Sym) or x in env for x in deep_atoms(p)):
                        env[a] = ev_poly(p, env)
            for a in defd:
                if a not in env:
                    raise NoEval(a)
            for a in defd:
                if not a.lo <= env[a] <= a.hi:
                    break
            else:
                if holds(st, env) and (differ is None or ev_poly(differ, env) != 0):
                    return {a: v for a, v in env.items() if isinstance(a, Sym)}
        except NoEval:
            noev += 1
            if noev == 50 and k == 49:
                raise
    return None
