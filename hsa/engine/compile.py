"""Python AST -> transfer functions on the abstract state."""
import ast

from .num import Unsupported, KLimit, AInt
from .objs import *
from .world import w, PyExc, Diverges
from . import interp as I     # mutual import; used at run time only

BREAK = ("break",)
CONTINUE = ("continue",)

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&",
       ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.Pow: "**", ast.MatMult: "@"}
UOPS = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~", ast.Not: "not"}
COPS = {ast.Eq: "__eq__", ast.NotEq: "__ne__", ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}


class Scope:
    def __init__(self, kind, parent, cls, mod):
        self.kind = kind          # module / class / func / comp
        self.parent = parent
        self.locals = set()
        self.globs = set()
        self.nonlocs = set()
        self.cls = cls            # class name for mangling
        self.mod = mod

    def frame_parent(self):
        """Nearest enclosing scope that owns a frame in the closure chain."""
        p = self.parent
        while p is not None and p.kind == "class":
            p = p.parent
        if p is None or p.kind == "module":
            return None
        return p


class Code:
    __slots__ = ("key", "run", "run_gen", "is_gen", "argnames")


class Collect(ast.NodeVisitor):
    """Names bound in one scope."""

    def __init__(self, sc):
        self.sc = sc
        self.has_yield = False

    def add(self, n):
        self.sc.locals.add(I.mangle(n, self.sc.cls))

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    def visit_ClassDef(self, n):
        self.add(n.name)
        for d in n.decorator_list + n.bases:
            self.visit(d)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            if a.name != "*":
                self.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.sc.globs.update(n.names)

    def visit_Nonlocal(self, n):
        self.sc.nonlocs.update(n.names)

    def visit_Yield(self, n):
        self.has_yield = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def comp(self, n):
        # only the first iterable belongs to this scope; walrus leaks out
        self.visit(n.generators[0].iter)
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.add(x.target.id)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comp

    def visit_MatchAs(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.add(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.add(n.rest)
        self.generic_visit(n)


def has_yield(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        for c in ast.iter_child_nodes(x):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                continue
            stack.append(c)
    return False


# -- names --------------------------------------------------------------------------

def load_global(mod, name):
    ns = mod.ns
    if name in ns:
        return ns[name]
    b = I.BUILTINS.get(name, MISSING)
    if b is MISSING:
        I.throw("NameError", "name %r is not defined" % name)
    return b


def resolve(sc, name):
    """-> ('local',) | ('up', k) | ('global',) | ('class', k|None)"""
    name = I.mangle(name, sc.cls)
    if sc.kind == "module" or name in sc.globs:
        return "global", 0
    if sc.kind == "class":
        k = 0
        p = sc.frame_parent()
        while p is not None:
            if name in p.locals and name not in p.globs:
                return "class", k
            p = p.frame_parent()
            k += 1
        return "class", -1
    if name in sc.locals and name not in sc.nonlocs:
        return "local", 0
    k = 1
    p = sc.frame_parent()
    while p is not None:
        if name in p.locals and name not in p.globs and name not in p.nonlocs:
            return "up", k
        p = p.frame_parent()
        k += 1
    return "global", 0


def c_load(sc, name):
    how, k = resolve(sc, name)
    name = I.mangle(name, sc.cls)
    mod = sc.mod
    if how == "local":
        def f(fr):
            try:
                return fr.v[name]
            except KeyError:
                I.throw("UnboundLocalError", "local variable %r referenced before assignment" % name)
        return f
    if how == "up":
        def f(fr):
            for _ in range(k):
                fr = fr.up
            try:
                return fr.v[name]
            except KeyError:
                I.throw("NameError", "free variable %r referenced before assignment" % name)
        return f
    if how == "class":
        def f(fr):
            if name in fr.v:
                return fr.v[name]
            if k >= 0:
                x = fr.up
                for _ in range(k):
                    x = x.up
                if name in x.v:
                    return x.v[name]
            return load_global(mod, name)
        return f
    return lambda fr: load_global(mod, name)


def c_store_name(sc, name):
    how, k = resolve(sc, name)
    name = I.mangle(name, sc.cls)
    mod = sc.mod
    if how in ("local",) or how == "class":
        if how == "class" and name in sc.globs:
            pass
        else:
            def f(fr, v):
                fr.v[name] = v
            return f
    if how == "up":
        def f(fr, v):
            for _ in range(k):
                fr = fr.up
            fr.v[name] = v
        return f

    def f(fr, v):
        w.touch(mod)
        mod.ns[name] = v
    return f


def c_del_name(sc, name):
    how, k = resolve(sc, name)
    name = I.mangle(name, sc.cls)
    mod = sc.mod

    def f(fr):
        if how in ("local", "class"):
            tbl = fr.v
        elif how == "up":
            for _ in range(k):
                fr = fr.up
            tbl = fr.v
        else:
            w.touch(mod)
            tbl = mod.ns
        if name not in tbl:
            I.throw("NameError", name)
        del tbl[name]
    return f


# -- expressions ------------------------------------------------------------------------

def ce(n, sc):
    m = EXPR.get(type(n))
    if m is None:
        def bad(fr):
            raise Unsupported("expression %s at %s:%s" % (type(n).__name__, sc.mod.path, getattr(n, "lineno", "?")))
        return bad
    return m(n, sc)


def e_const(n, sc):
    v = n.value
    if isinstance(v, complex):
        def bad(fr):
            raise Unsupported("complex constant")
        return bad
    return lambda fr: v


def e_name(n, sc):
    return c_load(sc, n.id)


def e_bin(n, sc):
    a, b, op = ce(n.left, sc), ce(n.right, sc), OPS[type(n.op)]
    return lambda fr: I.arith(op, a(fr), b(fr))


def e_unary(n, sc):
    a, op = ce(n.operand, sc), UOPS[type(n.op)]
    if op == "not":
        return lambda fr: not I.truth(a(fr))
    return lambda fr: I.unary(op, a(fr))


def e_bool(n, sc):
    vs = [ce(v, sc) for v in n.values]
    is_and = isinstance(n.op, ast.And)
    if not is_and and len(vs) == 2 and isinstance(n.values[1], ast.Constant) and n.values[1].value == 0 \
            and type(n.values[1].value) is int:
        # x or 0 is x for every integer x
        def g(fr):
            x = vs[0](fr)
            return x if isinstance(x, AInt) or I.truth(x) else 0
        return g

    def f(fr):
        for v in vs[:-1]:
            x = v(fr)
            t = I.truth(x)
            if t != is_and:
                return x
        return vs[-1](fr)
    return f


def e_compare(n, sc):
    left = ce(n.left, sc)
    rest = [(type(o), ce(c, sc)) for o, c in zip(n.ops, n.comparators)]

    def one(o, a, b):
        if o is ast.Is:
            return is_(a, b)
        if o is ast.IsNot:
            return not is_(a, b)
        if o is ast.In:
            return I.contains(b, a)
        if o is ast.NotIn:
            return not I.contains(b, a)
        return I.compare(COPS[o], a, b)
    if len(rest) == 1:
        o, r = rest[0]
        return lambda fr: one(o, left(fr), r(fr))

    def f(fr):
        a = left(fr)
        res = True
        for i, (o, r) in enumerate(rest):
            b = r(fr)
            res = one(o, a, b)
            if i < len(rest) - 1 and not I.truth(res):
                return res
            a = b
        return res
    return f


def is_(a, b):
    if a is b:
        return True
    if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
        return False
    if isinstance(a, AInt) and b in (None, True, False) or isinstance(b, AInt) and a in (None, True, False):
        return False
    if isinstance(a, (int, AInt)) and isinstance(b, (int, AInt)) and not isinstance(a, bool) and not isinstance(b, bool):
        return I.truth(I.prim_cmp(a, b, "__eq__"))      # small-int caching
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and not a and not b:
        return True
    return False


def e_call(n, sc):
    fn = ce(n.func, sc)
    args = [(isinstance(a, ast.Starred), ce(a.value if isinstance(a, ast.Starred) else a, sc)) for a in n.args]
    kws = [(k.arg, ce(k.value, sc)) for k in n.keywords]
    name = n.func.id if isinstance(n.func, ast.Name) else None
    key = (sc.mod.path, n.lineno)
    simple = not any(s for s, _ in args) and not kws
    fs = [a for _, a in args]
    if name in ("super", "locals", "globals", "vars", "__import__", "eval", "exec"):
        return special_call(n, sc, fn, args, kws, name)
    if simple:
        def f(fr):
            g = fn(fr)
            av = [a(fr) for a in fs]
            w.line = key
            return I.call(g, av, {})
        return f

    def f(fr):
        g = fn(fr)
        av = []
        for star, a in args:
            v = a(fr)
            if star:
                av.extend(I.iterate(v))
            else:
                av.append(v)
        kv = {}
        for k, a in kws:
            v = a(fr)
            if k is None:
                for kk in I.iterate_list(v):
                    kv[kk] = I.getitem(v, kk)
            else:
                kv[k] = v
        w.line = key
        return I.call(g, av, kv)
    return f


def special_call(n, sc, fn, args, kws, name):
    def f(fr):
        g = fn(fr)
        if not (isinstance(g, (Builtin,)) or g is I.TYPES.get("super")):
            return I.call(g, [a(fr) for _, a in args], {k: a(fr) for k, a in kws})
        av = [a(fr) for _, a in args]
        if name == "super":
            if av:
                return SuperObj(av[0], av[1])
            x = fr
            while x is not None and (x.func is None or x.func.cls is None or not x.func.node._code.argnames):
                x = x.up
            if x is None:
                raise Unsupported("super() outside a method")
            return SuperObj(x.func.cls[0], x.v[x.func.node._code.argnames[0]])
        if name == "locals" or (name == "vars" and not av):
            if sc.kind == "module":
                return mod_dict(sc.mod)
            return I.mkdict(list(fr.v.items()))
        if name == "globals":
            return mod_dict(sc.mod)
        if name == "vars":
            return I.getattr_(av[0], "__dict__")
        raise Unsupported(name)
    return f


def mod_dict(mod):
    d = I.mkdict(list(mod.ns.items()))
    d.default = ("instdict", mod)
    return d


def e_attr(n, sc):
    o = ce(n.value, sc)
    name = I.mangle(n.attr, sc.cls)
    return lambda fr: I.getattr_(o(fr), name)


def e_sub(n, sc):
    o, i = ce(n.value, sc), ce(n.slice, sc)
    return lambda fr: I.getitem(o(fr), i(fr))


def e_slice(n, sc):
    p = [ce(x, sc) if x is not None else (lambda fr: None) for x in (n.lower, n.upper, n.step)]
    return lambda fr: ASlice(p[0](fr), p[1](fr), p[2](fr))


def seq_items(elts, sc):
    fs = [(isinstance(e, ast.Starred), ce(e.value if isinstance(e, ast.Starred) else e, sc)) for e in elts]

    def f(fr):
        out = []
        for star, g in fs:
            v = g(fr)
            if star:
                out.extend(I.iterate(v))
            else:
                out.append(v)
        return out
    return f


def e_list(n, sc):
    f = seq_items(n.elts, sc)
    return lambda fr: AList(f(fr))


def e_tuple(n, sc):
    f = seq_items(n.elts, sc)
    return lambda fr: tuple(f(fr))


def e_set(n, sc):
    f = seq_items(n.elts, sc)
    return lambda fr: I.mkset(f(fr))


def e_dict(n, sc):
    ks = [(ce(k, sc) if k is not None else None, ce(v, sc)) for k, v in zip(n.keys, n.values)]

    def f(fr):
        d = ADict()
        for k, v in ks:
            if k is None:
                m = v(fr)
                for kk in I.iterate_list(m):
                    I.dict_set(d, kk, I.getitem(m, kk))
            else:
                kk = k(fr)
                I.dict_set(d, kk, v(fr))
        return d
    return f


def e_ifexp(n, sc):
    t, a, b = ce(n.test, sc), ce(n.body, sc), ce(n.orelse, sc)
    return lambda fr: a(fr) if I.truth(t(fr)) else b(fr)


def e_lambda(n, sc):
    return c_function(n, sc)


def e_joined(n, sc):
    parts = []
    for v in n.values:
        if isinstance(v, ast.Constant):
            parts.append(lambda fr, s=v.value: s)
        else:
            parts.append(ce(v, sc))
    return lambda fr: mkstr([p(fr) for p in parts])


def e_formatted(n, sc):
    v = ce(n.value, sc)
    spec = ce(n.format_spec, sc) if n.format_spec is not None else (lambda fr: "")
    conv = n.conversion

    def f(fr):
        x = v(fr)
        if conv == 115:
            x = I.str_(x)
        elif conv in (114, 97):
            x = I.repr_(x)
        return I.format_value(x, spec(fr))
    return f


def e_named(n, sc):
    v = ce(n.value, sc)
    # a walrus inside a comprehension binds in the enclosing function
    s = sc
    up = 0
    while s.kind == "comp":
        s = s.parent
        up += 1
    if up == 0:
        st = c_store_name(sc, n.target.id)

        def f(fr):
            x = v(fr)
            st(fr, x)
            return x
        return f
    st = c_store_name(s, n.target.id)

    def f(fr):
        x = v(fr)
        t = fr
        for _ in range(up):
            t = t.up if t.up is not None else t
        st(t, x)
        return x
    return f


def comp_scope(n, sc):
    cs = Scope("comp", sc, sc.cls, sc.mod)
    col = Collect(cs)
    for g in n.generators:
        col.visit(g.target)
    return cs


def c_comp(n, sc, emit):
    """emit: list of expression transfer functions evaluated per element"""
    cs = comp_scope(n, sc)
    first = ce(n.generators[0].iter, sc)
    gens = []
    for i, g in enumerate(n.generators):
        gens.append((None if i == 0 else ce(g.iter, cs), c_target(g.target, cs), [ce(t, cs) for t in g.ifs]))
    ex = [ce(e, cs) for e in emit]

    def run(fr):
        it0 = first(fr)
        nf = I.Frame(fr.up if sc.kind == "class" else (None if sc.kind == "module" else fr), fr.func, sc.mod)

        def level(i):
            it, tgt, ifs = gens[i]
            src = it0 if i == 0 else it(nf)
            for x in I.iterate(src):
                tgt(nf, x)
                if all(I.truth(t(nf)) for t in ifs):
                    if i + 1 < len(gens):
                        yield from level(i + 1)
                    else:
                        yield [e(nf) for e in ex]
        return level(0)
    return run


def e_listcomp(n, sc):
    r = c_comp(n, sc, [n.elt])
    return lambda fr: AList([x[0] for x in r(fr)])


def e_setcomp(n, sc):
    r = c_comp(n, sc, [n.elt])
    return lambda fr: I.mkset([x[0] for x in r(fr)])


def e_dictcomp(n, sc):
    r = c_comp(n, sc, [n.key, n.value])
    return lambda fr: I.mkdict([(x[0], x[1]) for x in r(fr)])


def e_genexp(n, sc):
    r = c_comp(n, sc, [n.elt])

    def f(fr):
        it = r(fr)
        return I.LazyIter((x[0] for x in it), "generator")
    return f


EXPR = {ast.Constant: e_const, ast.Name: e_name, ast.BinOp: e_bin, ast.UnaryOp: e_unary, ast.BoolOp: e_bool,
        ast.Compare: e_compare, ast.Call: e_call, ast.Attribute: e_attr, ast.Subscript: e_sub, ast.Slice: e_slice,
        ast.List: e_list, ast.Tuple: e_tuple, ast.Set: e_set, ast.Dict: e_dict, ast.IfExp: e_ifexp,
        ast.Lambda: e_lambda, ast.JoinedStr: e_joined, ast.FormattedValue: e_formatted, ast.NamedExpr: e_named,
        ast.ListComp: e_listcomp, ast.SetComp: e_setcomp, ast.DictComp: e_dictcomp, ast.GeneratorExp: e_genexp}


# -- targets ---------------------------------------------------------------------------

def c_target(t, sc):
    if isinstance(t, ast.Name):
        return c_store_name(sc, t.id)
    if isinstance(t, ast.Attribute):
        o = ce(t.value, sc)
        name = I.mangle(t.attr, sc.cls)
        return lambda fr, v: I.setattr_(o(fr), name, v)
    if isinstance(t, ast.Subscript):
        o, i = ce(t.value, sc), ce(t.slice, sc)
        return lambda fr, v: I.setitem(o(fr), i(fr), v)
    if isinstance(t, (ast.Tuple, ast.List)):
        ts = [(isinstance(x, ast.Starred), c_target(x.value if isinstance(x, ast.Starred) else x, sc)) for x in t.elts]
        star = [i for i, (s, _) in enumerate(ts) if s]

        def f(fr, v):
            items = I.iterate_list(v)
            if not star:
                if len(items) != len(ts):
                    I.throw("ValueError", "too many values to unpack" if len(items) > len(ts)
                            else "not enough values to unpack")
                for (_, g), x in zip(ts, items):
                    g(fr, x)
            else:
                k = star[0]
                tail = len(ts) - k - 1
                if len(items) < len(ts) - 1:
                    I.throw("ValueError", "not enough values to unpack")
                for (_, g), x in zip(ts[:k], items[:k]):
                    g(fr, x)
                ts[k][1](fr, AList(items[k:len(items) - tail]))
                for (_, g), x in zip(ts[k + 1:], items[len(items) - tail:]):
                    g(fr, x)
        return f
    if isinstance(t, ast.Starred):
        return c_target(t.value, sc)

    def bad(fr, v):
        raise Unsupported("assignment target %s" % type(t).__name__)
    return bad


# -- functions and classes ----------------------------------------------------------------

def c_function(n, sc):
    """Returns transfer function creating the Func."""
    fs = Scope("func", sc, sc.cls, sc.mod)
    a = n.args
    names = [x.arg for x in a.posonlyargs + a.args]
    for x in names + [x.arg for x in a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else []):
        fs.locals.add(I.mangle(x, sc.cls))
    code = Code()
    code.argnames = [I.mangle(x, sc.cls) for x in names]
    name = getattr(n, "name", "<lambda>")
    code.key = (sc.mod.path, name, n.lineno)
    if isinstance(n, ast.Lambda):
        code.is_gen = False
        body = None
    else:
        col = Collect(fs)
        for s in n.body:
            col.visit(s)
        code.is_gen = col.has_yield
    fs.locals -= fs.globs
    lazy = [None]

    if isinstance(n, ast.Lambda):
        def run(fr):
            if lazy[0] is None:
                lazy[0] = ce(n.body, fs)
            return lazy[0](fr)
    elif not code.is_gen:
        def run(fr):
            b = lazy[0]
            if b is None:
                b = lazy[0] = c_block(n.body, fs)
            r = b(fr)
            if r is None:
                return None
            return r[1]
    else:
        run = None

    def run_gen(fr):
        b = lazy[0]
        if b is None:
            b = lazy[0] = g_block(n.body, fs)
        r = yield from b(fr)
        return r[1] if r is not None else None
    code.run = run
    code.run_gen = run_gen
    n._code = code
    defs = [ce(d, sc) for d in a.defaults]
    kwdefs = [(k.arg, ce(d, sc)) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    decs = [ce(d, sc) for d in getattr(n, "decorator_list", [])]
    is_class = sc.kind == "class"

    def make(fr):
        ds = [d(fr) for d in decs]
        f = Func(n, name, sc.mod, (fr.up if is_class else (None if sc.kind == "module" else fr)) if fr is not None else None,
                 None)
        f.defaults = [d(fr) for d in defs]
        f.kwdefaults = {k: d(fr) for k, d in kwdefs}
        f.cls = fr.v.get("__classcell__") if is_class else None
        if isinstance(f.cls, AList):
            f.cls = f.cls.v
        r = f
        for d in reversed(ds):
            r = I.call(d, [r], {})
        return r
    return make


def s_funcdef(n, sc):
    mkf = c_function(n, sc)
    st = c_store_name(sc, n.name)

    def f(fr):
        st(fr, mkf(fr))
    return f


def s_classdef(n, sc):
    cs = Scope("class", sc, n.name, sc.mod)
    col = Collect(cs)
    for s in n.body:
        col.visit(s)
    bases = seq_items(n.bases, sc)
    kws = [(k.arg, ce(k.value, sc)) for k in n.keywords]
    decs = [ce(d, sc) for d in n.decorator_list]
    body = c_block(n.body, cs)
    st = c_store_name(sc, n.name)
    doc = ast.get_docstring(n)

    def f(fr):
        ds = [d(fr) for d in decs]
        bs = bases(fr)
        kw = {k: v(fr) for k, v in kws}
        meta = kw.pop("metaclass", None)
        nb = []
        nt = False
        for b in bs:
            if isinstance(b, Model) and b.kind in ("typing", "abc"):
                continue
            if isinstance(b, Model) and b.kind == "NamedTuple":
                nt = True
                continue
            if not isinstance(b, Cls):
                raise Unsupported("base class %r" % (b,))
            nb.append(b)
        nf = I.Frame(None if sc.kind == "module" else fr if sc.kind != "class" else fr.up, None, sc.mod)
        cell = AList([None])
        nf.v["__classcell__"] = cell
        r = body(nf)
        ns = dict(nf.v)
        ns.pop("__classcell__", None)
        if doc is not None:
            ns["__doc__"] = doc
        if nt:
            fs = [s.target.id for s in n.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            nb.append(I.NAMEDTUPLE([n.name, AList(fs)], {"defaults": tuple(ns.pop(x) for x in fs if x in ns)}))
        if meta is not None and not isinstance(meta, Cls):
            raise Unsupported("metaclass %r" % (meta,))
        c = I.make_class(n.name, nb, ns, meta, sc.mod, n, kw)
        cell.v[0] = c
        if isinstance(c, Cls):
            # metaclass hooks ran before the cell was set; only super() needs it
            pass
        for d in reversed(ds):
            c = I.call(d, [c], {})
        st(fr, c)
    return f


from .interp import Model       # noqa: E402


# -- statements -----------------------------------------------------------------------------

def c_block(stmts, sc):
    fs = []
    path = sc.mod.path
    for s in stmts:
        fs.append((cs(s, sc), (path, s.lineno)))
    cov = w.covered

    def run(fr):
        for f, key in fs:
            w.line = key
            cov_add(key)
            w.path_steps += 1
            r = f(fr)
            if r is not None:
                return r
        if w.path_steps > w.max_path_steps:
            raise KLimit("step bound exceeded at %s:%d" % key)
        return None
    return run


def cov_add(key):
    w.covered.add(key)


def cs(n, sc):
    m = STMT.get(type(n))
    if m is None:
        def bad(fr):
            raise Unsupported("statement %s at %s:%s" % (type(n).__name__, sc.mod.path, n.lineno))
        return bad
    return m(n, sc)


def s_expr(n, sc):
    if isinstance(n.value, ast.Constant):
        return lambda fr: None
    e = ce(n.value, sc)

    def f(fr):
        e(fr)
    return f


def s_assign(n, sc):
    v = ce(n.value, sc)
    ts = [c_target(t, sc) for t in n.targets]
    if len(ts) == 1:
        t = ts[0]

        def f(fr):
            t(fr, v(fr))
        return f

    def f(fr):
        x = v(fr)
        for t in ts:
            t(fr, x)
    return f


def s_annassign(n, sc):
    if n.value is None:
        return lambda fr: None
    v, t = ce(n.value, sc), c_target(n.target, sc)

    def f(fr):
        t(fr, v(fr))
    return f


def s_augassign(n, sc):
    op = OPS[type(n.op)]
    v = ce(n.value, sc)
    t = n.target
    if isinstance(t, ast.Name):
        ld, st = c_load(sc, t.id), c_store_name(sc, t.id)

        def f(fr):
            st(fr, I.inplace(op, ld(fr), v(fr)))
        return f
    if isinstance(t, ast.Attribute):
        o = ce(t.value, sc)
        name = I.mangle(t.attr, sc.cls)

        def f(fr):
            x = o(fr)
            I.setattr_(x, name, I.inplace(op, I.getattr_(x, name), v(fr)))
        return f
    o, i = ce(t.value, sc), ce(t.slice, sc)

    def f(fr):
        x, k = o(fr), i(fr)
        I.setitem(x, k, I.inplace(op, I.getitem(x, k), v(fr)))
    return f


def s_if(n, sc):
    t = ce(n.test, sc)
    a = c_block(n.body, sc)
    b = c_block(n.orelse, sc) if n.orelse else None

    def f(fr):
        if I.truth(t(fr)):
            return a(fr)
        if b is not None:
            return b(fr)
    return f


def s_while(n, sc):
    t = ce(n.test, sc)
    a = c_block(n.body, sc)
    b = c_block(n.orelse, sc) if n.orelse else None
    key = (sc.mod.path, n.lineno)

    def f(fr):
        k = 0
        while I.truth(t(fr)):
            r = a(fr)
            if r is not None:
                if r is BREAK:
                    return None
                if r is not CONTINUE:
                    return r
            k += 1
            if k > 300000:
                raise Diverges("loop at %s:%d does not terminate" % key)
        if b is not None:
            return b(fr)
    return f


def s_for(n, sc):
    it = ce(n.iter, sc)
    tg = c_target(n.target, sc)
    a = c_block(n.body, sc)
    b = c_block(n.orelse, sc) if n.orelse else None
    key = (sc.mod.path, n.lineno)

    def f(fr):
        k = 0
        for x in I.iterate(it(fr)):
            tg(fr, x)
            r = a(fr)
            if r is not None:
                if r is BREAK:
                    return None
                if r is not CONTINUE:
                    return r
            k += 1
            if k > 300000:
                raise Diverges("loop at %s:%d does not terminate" % key)
        if b is not None:
            return b(fr)
    return f


def s_return(n, sc):
    if n.value is None:
        return lambda fr: ("ret", None)
    v = ce(n.value, sc)
    return lambda fr: ("ret", v(fr))


def s_raise(n, sc):
    e = ce(n.exc, sc) if n.exc is not None else None
    cause = ce(n.cause, sc) if n.cause is not None else None

    def f(fr):
        if e is None:
            x = fr
            while x is not None:
                if x.exc is not None:
                    raise PyExc(x.exc, w.line)
                x = x.up
            I.throw("RuntimeError", "No active exception to reraise")
        v = e(fr)
        if isinstance(v, Cls):
            v = I.call(v, [], {})
        if not (isinstance(v, Inst) and I.T_BaseException in v.cls.mro):
            I.throw("TypeError", "exceptions must derive from BaseException")
        if cause is not None:
            c = cause(fr)
            w.touch(v)
            v.d["__cause__"] = c
        raise PyExc(v, w.line)
    return f


def handler_matches(h, exc, fr):
    if h is None:
        return True
    t = h(fr)
    return I.is_instance(exc, t)


def s_try(n, sc):
    body = c_block(n.body, sc)
    hs = [(ce(h.type, sc) if h.type is not None else None,
           c_store_name(sc, h.name) if h.name else None, c_block(h.body, sc)) for h in n.handlers]
    els = c_block(n.orelse, sc) if n.orelse else None
    fin = c_block(n.finalbody, sc) if n.finalbody else None

    def inner(fr):
        depth = len(w.stack)
        try:
            r = body(fr)
        except PyExc as e:
            del w.stack[depth:]
            for t, st, hb in hs:
                if handler_matches(t, e.value, fr):
                    old = fr.exc
                    fr.exc = e.value
                    if st is not None:
                        st(fr, e.value)
                    try:
                        return hb(fr)
                    finally:
                        fr.exc = old
            raise
        if r is None and els is not None:
            return els(fr)
        return r
    if fin is None:
        return inner

    def f(fr):
        try:
            r = inner(fr)
        except PyExc:
            q = fin(fr)
            if q is not None:
                return q
            raise
        q = fin(fr)
        return q if q is not None else r
    return f


def s_with(n, sc):
    items = [(ce(i.context_expr, sc), c_target(i.optional_vars, sc) if i.optional_vars is not None else None)
             for i in n.items]
    body = c_block(n.body, sc)

    def level(fr, k):
        if k == len(items):
            return body(fr)
        ctx = items[k][0](fr)
        en = I.meth(ctx, "__enter__") or I.getattr_(ctx, "__enter__")
        ex = I.meth(ctx, "__exit__") or I.getattr_(ctx, "__exit__")
        v = I.call(en, [], {})
        if items[k][1] is not None:
            items[k][1](fr, v)
        try:
            r = level(fr, k + 1)
        except PyExc as e:
            if I.truth(I.call(ex, [I.type_of(e.value), e.value, None], {})):
                return None
            raise
        I.call(ex, [None, None, None], {})
        return r
    return lambda fr: level(fr, 0)


def s_assert(n, sc):
    t = ce(n.test, sc)
    m = ce(n.msg, sc) if n.msg is not None else None

    def f(fr):
        if not I.truth(t(fr)):
            if m is not None:
                I.throw("AssertionError", m(fr))
            I.throw("AssertionError")
    return f


def s_import(n, sc):
    acts = []
    for a in n.names:
        st = c_store_name(sc, (a.asname or a.name).split(".")[0])
        acts.append((a.name, a.asname, st))

    def f(fr):
        for name, asname, st in acts:
            m = I.import_module(name)
            if asname is None and "." in name:
                m = I.import_module(name.split(".")[0])
            st(fr, m)
    return f


def s_importfrom(n, sc):
    acts = [(a.name, c_store_name(sc, a.asname or a.name) if a.name != "*" else None) for a in n.names]
    mod = sc.mod

    def f(fr):
        if n.level:
            full = I.resolve_relative(mod, n.level, n.module)
        else:
            full = n.module
        if full == "__future__":
            return
        m = I.import_module(full)
        for name, st in acts:
            if name == "*":
                al = m.ns.get("__all__", MISSING)
                if al is not MISSING:
                    names = I.iterate_list(al)
                else:
                    names = [k for k in m.ns if not k.startswith("_")]
                for k in names:
                    v = I.getattr_(m, k)
                    if sc.kind == "module":
                        w.touch(mod)
                        mod.ns[k] = v
                    else:
                        fr.v[k] = v
                continue
            v = I.getattr_raw(m, name)
            if v is MISSING:
                v = I.try_import(full + "." + name)
                if v is None:
                    I.throw("ImportError", "cannot import name %r from %r" % (name, full))
            st(fr, v)
    return f


def s_delete(n, sc):
    acts = []
    for t in n.targets:
        if isinstance(t, ast.Name):
            acts.append(c_del_name(sc, t.id))
        elif isinstance(t, ast.Attribute):
            o = ce(t.value, sc)
            name = I.mangle(t.attr, sc.cls)
            acts.append(lambda fr, o=o, name=name: I.delattr_(o(fr), name))
        elif isinstance(t, ast.Subscript):
            o, i = ce(t.value, sc), ce(t.slice, sc)
            acts.append(lambda fr, o=o, i=i: I.delitem(o(fr), i(fr)))

    def f(fr):
        for a in acts:
            a(fr)
    return f


def s_match(n, sc):
    subj = ce(n.subject, sc)
    cases = [(c_pattern(c.pattern, sc), ce(c.guard, sc) if c.guard is not None else None, c_block(c.body, sc))
             for c in n.cases]

    def f(fr):
        v = subj(fr)
        for p, g, b in cases:
            if p(fr, v) and (g is None or I.truth(g(fr))):
                return b(fr)
    return f


def c_pattern(p, sc):
    if isinstance(p, ast.MatchValue):
        e = ce(p.value, sc)
        return lambda fr, v: I.eq(v, e(fr))
    if isinstance(p, ast.MatchSingleton):
        return lambda fr, v: v is p.value
    if isinstance(p, ast.MatchOr):
        ps = [c_pattern(x, sc) for x in p.patterns]
        return lambda fr, v: any(x(fr, v) for x in ps)
    if isinstance(p, ast.MatchAs):
        q = c_pattern(p.pattern, sc) if p.pattern is not None else None
        st = c_store_name(sc, p.name) if p.name else None

        def f(fr, v):
            if q is not None and not q(fr, v):
                return False
            if st is not None:
                st(fr, v)
            return True
        return f
    if isinstance(p, ast.MatchSequence):
        ps = [(isinstance(x, ast.MatchStar), x, None if isinstance(x, ast.MatchStar) else c_pattern(x, sc)) for x in p.patterns]
        stars = [i for i, x in enumerate(ps) if x[0]]

        def f(fr, v):
            if not isinstance(v, (tuple, AList)):
                return False
            items = list(v) if isinstance(v, tuple) else list(v.v)
            if not stars:
                return len(items) == len(ps) and all(x[2](fr, y) for x, y in zip(ps, items))
            k = stars[0]
            tail = len(ps) - k - 1
            if len(items) < len(ps) - 1:
                return False
            if not all(x[2](fr, y) for x, y in zip(ps[:k], items)):
                return False
            if ps[k][1].name:
                c_store_name(sc, ps[k][1].name)(fr, AList(items[k:len(items) - tail]))
            return all(x[2](fr, y) for x, y in zip(ps[k + 1:], items[len(items) - tail:]))
        return f
    if isinstance(p, ast.MatchMapping):
        kv = [(ce(k, sc), c_pattern(q, sc)) for k, q in zip(p.keys, p.patterns)]
        rest = c_store_name(sc, p.rest) if p.rest else None

        def f(fr, v):
            if not isinstance(v, ADict):
                return False
            seen = []
            for k, q in kv:
                key = k(fr)
                x = I.dict_get(v, key)
                if x is MISSING or not q(fr, x):
                    return False
                seen.append(key)
            if rest is not None:
                r = I.mkdict([x for x in v.e.values() if not any(I.eq(x[0], y) for y in seen)])
                rest(fr, r)
            return True
        return f
    if isinstance(p, ast.MatchClass):
        c = ce(p.cls, sc)
        ks = [(a, c_pattern(q, sc)) for a, q in zip(p.kwd_attrs, p.kwd_patterns)]
        ps = [c_pattern(q, sc) for q in p.patterns]

        def f(fr, v):
            t = c(fr)
            if not I.is_instance(v, t):
                return False
            if ps:
                if t in (I.T_int, I.T_str, I.T_bytes, I.T_float, I.T_bool, I.T_list, I.T_tuple, I.T_dict):
                    if not ps[0](fr, v):
                        return False
                else:
                    names = I.iterate_list(I.getattr_(t, "__match_args__"))
                    for nm, q in zip(names, ps):
                        x = I.getattr_raw(v, nm)
                        if x is MISSING or not q(fr, x):
                            return False
            for a, q in ks:
                x = I.getattr_raw(v, a)
                if x is MISSING or not q(fr, x):
                    return False
            return True
        return f

    def bad(fr, v):
        raise Unsupported("match pattern %s" % type(p).__name__)
    return bad


STMT = {ast.Expr: s_expr, ast.Assign: s_assign, ast.AnnAssign: s_annassign, ast.AugAssign: s_augassign, ast.If: s_if,
        ast.While: s_while, ast.For: s_for, ast.Return: s_return, ast.Raise: s_raise, ast.Try: s_try,
        ast.With: s_with, ast.Assert: s_assert, ast.Import: s_import, ast.ImportFrom: s_importfrom,
        ast.Delete: s_delete, ast.FunctionDef: s_funcdef, ast.ClassDef: s_classdef,
        ast.Pass: lambda n, sc: (lambda fr: None), ast.Break: lambda n, sc: (lambda fr: BREAK),
        ast.Continue: lambda n, sc: (lambda fr: CONTINUE), ast.Global: lambda n, sc: (lambda fr: None),
        ast.Nonlocal: lambda n, sc: (lambda fr: None), ast.Match: s_match}


# -- generator bodies: host generators at statement level ----------------------------------

def g_block(stmts, sc):
    fs = []
    path = sc.mod.path
    for s in stmts:
        if has_yield(s):
            fs.append((True, gs(s, sc), (path, s.lineno)))
        else:
            fs.append((False, cs(s, sc), (path, s.lineno)))

    def run(fr):
        for isg, f, key in fs:
            w.line = key
            cov_add(key)
            w.path_steps += 1
            if isg:
                r = yield from f(fr)
            else:
                r = f(fr)
            if r is not None:
                return r
        if w.path_steps > w.max_path_steps:
            raise KLimit("step bound exceeded at %s:%d" % key)
        return None
    return run


def g_yield(e, sc):
    """Host generator for a yield expression; returns its value."""
    if isinstance(e, ast.Yield):
        v = ce(e.value, sc) if e.value is not None else (lambda fr: None)

        def f(fr):
            r = yield v(fr)
            return r
        return f
    it = ce(e.value, sc)

    def f(fr):
        v = it(fr)
        if isinstance(v, I.GenObj):
            r = yield from v.host
            return r
        for x in I.iterate(v):
            yield x
        return None
    return f


def gs(n, sc):
    if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
        g = g_yield(n.value, sc)

        def f(fr):
            yield from g(fr)
            return None
        return f
    if isinstance(n, (ast.Assign,)) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
        g = g_yield(n.value, sc)
        ts = [c_target(t, sc) for t in n.targets]

        def f(fr):
            x = yield from g(fr)
            for t in ts:
                t(fr, x)
            return None
        return f
    if isinstance(n, ast.Return) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
        g = g_yield(n.value, sc)

        def f(fr):
            x = yield from g(fr)
            return ("ret", x)
        return f
    if isinstance(n, ast.If) and not has_yield(n.test):
        t, a, b = ce(n.test, sc), g_block(n.body, sc), g_block(n.orelse, sc)

        def f(fr):
            r = yield from (a if I.truth(t(fr)) else b)(fr)
            return r
        return f
    if isinstance(n, ast.While) and not has_yield(n.test):
        t, a, b = ce(n.test, sc), g_block(n.body, sc), g_block(n.orelse, sc)

        def f(fr):
            k = 0
            while I.truth(t(fr)):
                r = yield from a(fr)
                if r is BREAK:
                    return None
                if r is not None and r is not CONTINUE:
                    return r
                k += 1
                if k > 300000:
                    raise Diverges("generator loop does not terminate")
            r = yield from b(fr)
            return r
        return f
    if isinstance(n, ast.For) and not has_yield(n.iter):
        it, tg, a, b = ce(n.iter, sc), c_target(n.target, sc), g_block(n.body, sc), g_block(n.orelse, sc)

        def f(fr):
            for x in I.iterate(it(fr)):
                tg(fr, x)
                r = yield from a(fr)
                if r is BREAK:
                    return None
                if r is not None and r is not CONTINUE:
                    return r
            r = yield from b(fr)
            return r
        return f
    if isinstance(n, ast.Try):
        body, els, fin = g_block(n.body, sc), g_block(n.orelse, sc), g_block(n.finalbody, sc)
        hs = [(ce(h.type, sc) if h.type is not None else None,
               c_store_name(sc, h.name) if h.name else None, g_block(h.body, sc)) for h in n.handlers]

        def f(fr):
            err = None
            r = None
            try:
                r = yield from body(fr)
                if r is None:
                    r = yield from els(fr)
            except PyExc as e:
                for t, st, hb in hs:
                    if handler_matches(t, e.value, fr):
                        old = fr.exc
                        fr.exc = e.value
                        if st is not None:
                            st(fr, e.value)
                        try:
                            r = yield from hb(fr)
                        except PyExc as e2:
                            err = e2
                        fr.exc = old
                        break
                else:
                    err = e
            except GeneratorExit:
                if I.CLOSING[0]:
                    for _ in fin(fr):
                        raise Unsupported("yield while a generator is closed")
                raise
            q = yield from fin(fr)
            if q is not None:
                return q
            if err is not None:
                raise err
            return r
        return f
    if isinstance(n, ast.With) and len(n.items) == 1:
        ctxf = ce(n.items[0].context_expr, sc)
        tgt = c_target(n.items[0].optional_vars, sc) if n.items[0].optional_vars is not None else None
        body = g_block(n.body, sc)

        def f(fr):
            ctx = ctxf(fr)
            v = I.call(I.getattr_(ctx, "__enter__"), [], {})
            if tgt is not None:
                tgt(fr, v)
            try:
                r = yield from body(fr)
            except PyExc as e:
                if I.truth(I.call(I.getattr_(ctx, "__exit__"), [I.type_of(e.value), e.value, None], {})):
                    return None
                raise
            except GeneratorExit:
                if I.CLOSING[0]:
                    I.call(I.getattr_(ctx, "__exit__"), [I.TYPES["GeneratorExit"], None, None], {})
                raise
            I.call(I.getattr_(ctx, "__exit__"), [None, None, None], {})
            return r
        return f

    def bad(fr):
        raise Unsupported("yield inside %s at %s:%s" % (type(n).__name__, sc.mod.path, n.lineno))
        yield
    return bad


# -- modules ----------------------------------------------------------------------------

def compile_module(tree, mod):
    sc = Scope("module", None, None, mod)
    Collect(sc).visit(tree)
    if ast.get_docstring(tree) is not None:
        mod.ns["__doc__"] = ast.get_docstring(tree)
    body = c_block(tree.body, sc)

    def run(m):
        fr = I.Frame(None, None, m)
        body(fr)
    return run


compile_script = compile_module
