"""Abstract heap objects and abstract strings/bytes."""
from .num import AInt, AFloat, Poly, INF


class World_:
    """Holder for the singleton set by interp.World()."""
    w = None


_birth = [0]


def birth():
    _birth[0] += 1
    return _birth[0]


class Obj:
    __slots__ = ("birth", "stamp")

    def __init__(self):
        self.birth = birth()
        self.stamp = -1


class Inst(Obj):
    __slots__ = ("cls", "d", "where")

    def __init__(self, cls):
        Obj.__init__(self)
        self.where = None
        self.cls = cls
        self.d = {}

    def snap(self):
        return (self.cls, dict(self.d))

    def unsnap(self, s):
        self.cls, self.d = s

    def __repr__(self):
        return "<%s %s>" % (self.cls.name, {k: v for k, v in self.d.items() if not isinstance(v, (Inst, AList, ADict))})


class Cls(Obj):
    __slots__ = ("name", "bases", "ns", "mro", "meta", "mod", "node")

    def __init__(self, name, bases, ns, meta=None, mod=None, node=None):
        Obj.__init__(self)
        self.name = name
        self.bases = bases
        self.ns = ns
        self.meta = meta
        self.mod = mod
        self.node = node
        self.mro = None

    def snap(self):
        return dict(self.ns)

    def unsnap(self, s):
        self.ns = s

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return MISSING

    def __repr__(self):
        return "<class %s>" % self.name


class Missing:
    def __repr__(self):
        return "MISSING"


MISSING = Missing()


class BType(Cls):
    """A builtin type, usable as a base class and as a callable."""
    __slots__ = ("host",)

    def __init__(self, name, bases, host=None):
        Cls.__init__(self, name, bases, {})
        self.host = host

    def __repr__(self):
        return "<builtin type %s>" % self.name


class Mod(Obj):
    __slots__ = ("name", "ns", "path", "is_pkg")

    def __init__(self, name, path, is_pkg=False):
        Obj.__init__(self)
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        self.ns = {}

    def snap(self):
        return dict(self.ns)

    def unsnap(self, s):
        self.ns = s

    def __repr__(self):
        return "<module %s>" % self.name


class Func(Obj):
    __slots__ = ("node", "name", "mod", "parent", "cls", "defaults", "kwdefaults", "locals", "is_gen", "d", "globs", "nonlocs")

    def __init__(self, node, name, mod, parent, cls):
        Obj.__init__(self)
        self.node = node
        self.name = name
        self.mod = mod
        self.parent = parent
        self.cls = cls
        self.d = {}

    def snap(self):
        return dict(self.d)

    def unsnap(self, s):
        self.d = s

    def __repr__(self):
        return "<function %s>" % self.name


class BoundMethod:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_


class Builtin:
    __slots__ = ("name", "fn", "register")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.register = None

    def __repr__(self):
        return "<builtin %s>" % self.name


class BMethod:
    """Method of a builtin-typed value."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return "<method %s of %r>" % (self.name, self.obj)


class ClassMethod:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class StaticMethod:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class Property:
    __slots__ = ("fget", "fset", "fdel")

    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget = fget
        self.fset = fset
        self.fdel = fdel


class CachedProperty(Property):
    __slots__ = ()


class SuperObj:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class AList(Obj):
    __slots__ = ("v", "kind", "maxlen")

    def __init__(self, v=None, kind="list"):
        Obj.__init__(self)
        self.v = v if v is not None else []
        self.kind = kind
        self.maxlen = None

    def snap(self):
        return list(self.v)

    def unsnap(self, s):
        self.v = s

    def __repr__(self):
        return "AList%r" % (self.v,)


class ASet(Obj):
    __slots__ = ("e", "frozen")

    def __init__(self):
        Obj.__init__(self)
        self.e = {}
        self.frozen = False

    def snap(self):
        return dict(self.e)

    def unsnap(self, s):
        self.e = s

    def __repr__(self):
        return "ASet%r" % (list(self.e.values()),)


class ADict(Obj):
    __slots__ = ("e", "default", "absk")

    def __init__(self):
        Obj.__init__(self)
        self.e = {}         # canonical key -> (key, value)
        self.default = None
        self.absk = False   # holds abstract keys

    def snap(self):
        return dict(self.e)

    def unsnap(self, s):
        self.e = s

    def __repr__(self):
        return "ADict%r" % ({repr(k): v for k, v in self.e.values()},)


class ARange:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class AIter(Obj):
    __slots__ = ("items", "pos")

    def __init__(self, items):
        Obj.__init__(self)
        self.items = items
        self.pos = 0

    def snap(self):
        return self.pos

    def unsnap(self, s):
        self.pos = s


class ASlice:
    __slots__ = ("start", "stop", "step")

    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c


class Unk:
    """Value of unknown structure; any use is Unsupported."""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<unknown %s>" % self.why


class Guard:
    """Element present in a comprehension result only if cond != 0."""
    __slots__ = ("cond", "elem")

    def __init__(self, cond, elem):
        self.cond = cond
        self.elem = elem


class Hole:
    """Unknown substring.  `values` (if not None) is the complete finite set
    of strings it may be; otherwise `alphabet` bounds its characters."""
    __slots__ = ("kind", "key", "values", "alphabet", "minlen", "maxlen", "samples")

    def __init__(self, kind, key, values=None, alphabet=None, minlen=0, maxlen=INF, samples=None):
        self.kind = kind
        self.key = key
        self.values = values
        if values is not None:
            alphabet = frozenset("".join(values))
            minlen = min(map(len, values))
            maxlen = max(map(len, values))
            samples = sorted(values)[:1] + sorted(values, key=len)[-1:]
        self.alphabet = alphabet
        self.minlen = minlen
        self.maxlen = maxlen
        self.samples = samples

    def ident(self):
        return (self.kind, self.key)

    def __eq__(self, o):
        return isinstance(o, Hole) and self.ident() == o.ident()

    def __hash__(self):
        return hash(self.ident())

    def may_contain(self, ch):
        return self.alphabet is None or ch in self.alphabet

    def __repr__(self):
        return "{%s:%s}" % (self.kind, self.key)


class AStr:
    """Template string: literals and holes."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return "AStr(%s)" % "".join(p if isinstance(p, str) else repr(p) for p in self.parts)

    def __eq__(self, o):
        return isinstance(o, AStr) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, AStr):
            for q in p.parts:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != "":
                    out.append(q)
        elif isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        elif isinstance(p, Hole):
            if p.values is not None and len(set(p.values)) == 1:
                v = next(iter(p.values))
                if out and isinstance(out[-1], str):
                    out[-1] += v
                elif v:
                    out.append(v)
            else:
                out.append(p)
        else:
            raise TypeError(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return AStr(tuple(out))


class ABytes:
    """Bytes of concrete length; each unit an int or a byte-valued AInt."""
    __slots__ = ("u",)

    def __init__(self, u):
        self.u = tuple(u)

    def __repr__(self):
        return "ABytes(%s)" % (", ".join(map(repr, self.u)))


def mkbytes(units):
    units = tuple(units)
    if all(type(x) is int for x in units):
        return bytes(units)
    return ABytes(units)
