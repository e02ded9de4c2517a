"""Abstract interpreter for the Python source of the analysed package.

Sources are parsed (never imported); each function body is turned into
transfer functions over the abstract state (world.w).  Entry points are looked
up by their public names, so helpers, renamed locals and restructured control
flow are followed like any other code.
"""
import ast
import os
import sys

from .num import (AInt, AFloat, Poly, Node, Sym, Infeasible, Unsupported, KLimit, INF, node,
                  BUILDERS, P)
from . import num, witness
from .objs import *
from .world import w, PyExc, Diverges
from . import strings as S

sys.setrecursionlimit(20000)

REPO = os.environ.get("HSA_REPO", "/repo")


# -- builtin types -------------------------------------------------------------

def _bt(name, *bases, host=None):
    t = BType(name, bases, host)
    t.mro = [t]
    for b in bases:
        for c in b.mro:
            if c not in t.mro:
                t.mro.append(c)
    TYPES[name] = t
    return t


TYPES = {}
T_object = _bt("object")
T_type = _bt("type", T_object)
T_int = _bt("int", T_object, host=int)
T_bool = _bt("bool", T_int, host=bool)
T_float = _bt("float", T_object, host=float)
T_str = _bt("str", T_object, host=str)
T_bytes = _bt("bytes", T_object, host=bytes)
T_bytearray = _bt("bytearray", T_object)
T_memoryview = _bt("memoryview", T_object)
T_list = _bt("list", T_object)
T_tuple = _bt("tuple", T_object, host=tuple)
T_dict = _bt("dict", T_object)
T_set = _bt("set", T_object)
T_frozenset = _bt("frozenset", T_object)
T_range = _bt("range", T_object)
T_slice = _bt("slice", T_object)
T_none = _bt("NoneType", T_object)
T_func = _bt("function", T_object)
T_module = _bt("module", T_object)
T_property = _bt("property", T_object)
T_classmethod = _bt("classmethod", T_object)
T_staticmethod = _bt("staticmethod", T_object)
T_super = _bt("super", T_object)
T_gen = _bt("generator", T_object)
T_enumerate = _bt("enumerate", T_object)
T_zip = _bt("zip", T_object)
T_map = _bt("map", T_object)
T_filter = _bt("filter", T_object)
T_reversed = _bt("reversed", T_object)

T_BaseException = _bt("BaseException", T_object)
T_Exception = _bt("Exception", T_BaseException)
for _n, _b in [("ArithmeticError", "Exception"), ("ZeroDivisionError", "ArithmeticError"),
               ("OverflowError", "ArithmeticError"), ("AssertionError", "Exception"), ("AttributeError", "Exception"),
               ("EOFError", "Exception"), ("ImportError", "Exception"), ("ModuleNotFoundError", "ImportError"),
               ("LookupError", "Exception"), ("IndexError", "LookupError"), ("KeyError", "LookupError"),
               ("NameError", "Exception"), ("UnboundLocalError", "NameError"), ("OSError", "Exception"),
               ("RuntimeError", "Exception"), ("NotImplementedError", "RuntimeError"), ("RecursionError", "RuntimeError"),
               ("StopIteration", "Exception"), ("SyntaxError", "Exception"), ("SystemExit", "BaseException"),
               ("KeyboardInterrupt", "BaseException"), ("GeneratorExit", "BaseException"),
               ("TypeError", "Exception"), ("ValueError", "Exception"), ("UnicodeError", "ValueError"),
               ("UnicodeDecodeError", "UnicodeError"), ("UnicodeEncodeError", "UnicodeError"),
               ("Warning", "Exception"), ("UserWarning", "Warning"), ("DeprecationWarning", "Warning"),
               ("RuntimeWarning", "Warning"), ("struct.error", "Exception"), ("FileNotFoundError", "OSError"),
               ("StopAsyncIteration", "Exception"), ("BufferError", "Exception"), ("FutureWarning", "Warning")]:
    _bt(_n, TYPES[_b])
TYPES["IOError"] = TYPES["OSError"]
TYPES["EnvironmentError"] = TYPES["OSError"]


def throw(tname, *args):
    i = Inst(TYPES[tname])
    i.d["args"] = tuple(args)
    raise PyExc(i, w.line)


CLOSING = [0]      # an explicit close() of a generator is under way


class GenObj(Obj):
    __slots__ = ("host", "name", "done")

    def __init__(self, host, name):
        Obj.__init__(self)
        self.host = host
        self.name = name
        self.done = False

    def snap(self):
        return None

    def unsnap(self, s):
        pass


class LazyIter(Obj):
    """Host-generator-backed iterator (zip/map/enumerate/...)"""
    __slots__ = ("host", "tname")

    def __init__(self, host, tname="iterator"):
        Obj.__init__(self)
        self.host = host
        self.tname = tname

    def snap(self):
        return None

    def unsnap(self, s):
        pass


class Model(Obj):
    """Modelled library object: attributes in d, behaviour in host methods."""
    __slots__ = ("kind", "d", "h")

    def __init__(self, kind, d=None, h=None):
        Obj.__init__(self)
        self.kind = kind
        self.d = d or {}
        self.h = h

    def snap(self):
        return dict(self.d)

    def unsnap(self, s):
        self.d = s

    def __repr__(self):
        return "<model %s>" % self.kind


class Frame:
    __slots__ = ("v", "up", "func", "mod", "self_", "cls", "exc")

    def __init__(self, up, func, mod):
        self.v = {}
        self.up = up
        self.func = func
        self.mod = mod
        self.cls = None
        self.exc = None


class ReturnX(Exception):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


# -- type of a value -------------------------------------------------------------

def type_of(v):
    if isinstance(v, Inst):
        return v.cls
    if v is None:
        return T_none
    if isinstance(v, bool):
        return T_bool
    if isinstance(v, (int, AInt)):
        return T_int
    if isinstance(v, (float, AFloat)):
        return T_float
    if isinstance(v, (str, AStr)):
        return T_str
    if isinstance(v, (bytes, ABytes)):
        return T_bytes
    if isinstance(v, tuple):
        return T_tuple
    if isinstance(v, AList):
        return {"list": T_list, "bytearray": T_bytearray}.get(v.kind) or TYPES.get(v.kind) or T_list
    if isinstance(v, ADict):
        return T_dict
    if isinstance(v, ASet):
        return T_frozenset if v.frozen else T_set
    if isinstance(v, ARange):
        return T_range
    if isinstance(v, Cls):
        return v.meta or T_type
    if isinstance(v, (Func, BoundMethod, Builtin, BMethod)):
        return T_func
    if isinstance(v, Mod):
        return T_module
    if isinstance(v, (GenObj, LazyIter, AIter)):
        return T_gen
    if isinstance(v, Property):
        return T_property
    if isinstance(v, ClassMethod):
        return T_classmethod
    if isinstance(v, StaticMethod):
        return T_staticmethod
    if isinstance(v, ASlice):
        return T_slice
    if isinstance(v, Model):
        return T_object
    if v is NotImplemented or v is Ellipsis:
        return T_object
    raise Unsupported("type of %r" % (v,))


def is_instance(v, t):
    if isinstance(t, tuple):
        return any(is_instance(v, x) for x in t)
    if isinstance(v, Unk):
        raise Unsupported("isinstance of %r" % (v,))
    if isinstance(t, Model) and t.kind == "uniontype":
        return any(is_instance(v, x) for x in t.h)
    if isinstance(t, Model) and t.kind == "abctype":
        return t.h(v)
    if not isinstance(t, Cls):
        raise Unsupported("isinstance against %r" % (t,))
    c = type_of(v)
    return t in c.mro


# -- attribute access --------------------------------------------------------------

def mangle(name, cls):
    if cls and name.startswith("__") and not name.endswith("__") and "." not in name:
        c = cls.lstrip("_")
        if c:
            return "_%s%s" % (c, name)
    return name


def bind(v, obj, cls):
    if isinstance(v, Func):
        return BoundMethod(v, obj)
    if isinstance(v, StaticMethod):
        return v.fn
    if isinstance(v, ClassMethod):
        return BoundMethod(v.fn, cls)
    if isinstance(v, Property):
        if v.fget is None:
            throw("AttributeError", "unreadable attribute")
        return call(v.fget, [obj], {})
    if isinstance(v, Builtin) and getattr(v, "name", "").startswith("method:"):
        return BoundMethod(v, obj)
    if isinstance(v, Model) and v.kind == "partialmethod":
        return v.h(obj)
    if isinstance(v, Inst):
        g = v.cls.lookup("__get__")
        if g is not MISSING:
            return call(BoundMethod(g, v), [obj, cls], {})
    return v


def getattr_(o, name, default=MISSING):
    v = getattr_raw(o, name)
    if v is MISSING:
        if default is not MISSING:
            return default
        throw("AttributeError", "%r object has no attribute %r" % (tname(o), name))
    return v


def tname(o):
    try:
        return type_of(o).name
    except Unsupported:
        return "?"


def getattr_raw(o, name):
    if isinstance(o, Inst):
        cls = o.cls
        v = cls.lookup(name)
        if isinstance(v, CachedProperty):
            if name not in o.d:
                r = call(v.fget, [o], {})
                w.touch(o)
                o.d[name] = r
            return o.d[name]
        if isinstance(v, Property):
            return bind(v, o, cls)
        if name in o.d:
            return o.d[name]
        if v is not MISSING:
            return bind(v, o, cls)
        if name == "__class__":
            return cls
        if name == "__dict__":
            return inst_dict(o)
        if T_BaseException in cls.mro:
            if name == "args":
                return o.d.get("args", ())
            if name == "with_traceback":
                return Builtin("with_traceback", lambda a, k: o)
            if name in ("__traceback__", "__cause__", "__context__"):
                return None
        g = cls.lookup("__getattr__")
        if g is not MISSING:
            try:
                return call(BoundMethod(g, o), [name], {})
            except PyExc as e:
                if is_instance(e.value, TYPES["AttributeError"]):
                    return MISSING
                raise
        r = object_method(o, name)
        return r
    if isinstance(o, Cls):
        if name == "__name__":
            return o.name
        if name == "__qualname__":
            return o.name
        if name == "__module__":
            return o.mod.name if o.mod else "builtins"
        if name == "__bases__":
            return tuple(o.bases)
        if name == "__mro__":
            return tuple(o.mro)
        if name == "__dict__":
            d = ADict()
            for k, v in o.ns.items():
                dict_set(d, k, v)
            return d
        if name == "__class__":
            return type_of(o)
        if name == "__doc__" and "__doc__" not in o.ns:
            return None
        if name == "mro":
            return Builtin("mro", lambda a, k: AList(list(o.mro)))
        v = o.lookup(name)
        if v is not MISSING:
            if isinstance(v, StaticMethod):
                return v.fn
            if isinstance(v, ClassMethod):
                return BoundMethod(v.fn, o)
            return v
        m = o.meta
        if m is not None:
            v = m.lookup(name)
            if v is not MISSING:
                return bind(v, o, m)
        if isinstance(o, BType) or any(isinstance(c, BType) and c is not T_object for c in o.mro):
            v = btype_attr(o, name)
            if v is not MISSING:
                return v
        if name == "__subclasses__":
            return Builtin("__subclasses__", lambda a, k: AList([c for c in ALL_CLASSES if o in c.bases]))
        if name in ("__init__", "__new__", "__setattr__", "__getattribute__", "__eq__", "__hash__", "__str__", "__repr__",
                    "__init_subclass__", "__ne__"):
            return obj_unbound(name, o)
        return MISSING
    if isinstance(o, Mod):
        if name in o.ns:
            return o.ns[name]
        if name == "__name__":
            return o.name
        if name == "__dict__":
            d = ADict()
            for k, v in o.ns.items():
                dict_set(d, k, v)
            return d
        if o.is_pkg:
            m = try_import(o.name + "." + name)
            if m is not None:
                return m
        if o.path == "<lib>" and real_name(o.name, name):
            return Unk("%s.%s" % (o.name, name))
        return MISSING
    if isinstance(o, SuperObj):
        start = o.obj if isinstance(o.obj, Cls) else type_of(o.obj)
        if isinstance(o.obj, Cls) and o.cls not in start.mro:
            start = type_of(o.obj)
        mro = start.mro
        i = mro.index(o.cls)
        for c in mro[i + 1:]:
            if name in c.ns:
                v = c.ns[name]
                if isinstance(o.obj, Cls) and o.obj is start and not isinstance(v, (ClassMethod, StaticMethod)) and name != "__new__":
                    return v
                return bind(v, o.obj, start)
        if name == "__init__":
            if T_type in mro:
                return Builtin("type.__init__", lambda a, k: None)
            return Builtin("object.__init__", lambda a, k: exc_init(o.obj, a))
        if name == "__new__":
            if T_type in mro:
                return Builtin("type.__new__", lambda a, k: new_class(a[1], list(a[2]), a[3], a[0]))
            for c in mro:
                if isinstance(c, BType) and c is not T_object and T_BaseException not in c.mro:
                    raise Unsupported("__new__ of the builtin %s" % c.name)
            return Builtin("object.__new__", lambda a, k: Inst(a[0]))
        if name == "__init_subclass__":
            return Builtin("__init_subclass__", lambda a, k: None)
        if name == "__setattr__":
            return Builtin("__setattr__", lambda a, k: raw_setattr(o.obj, a[0], a[1]))
        if name == "__call__" and T_type in mro:
            return Builtin("type.__call__", lambda a, k: instantiate_cls(o.obj, a, k))
        if name in ("__str__", "__repr__"):
            return Builtin(name, lambda a, k: default_str(o.obj, name))
        if name == "__eq__":
            return Builtin(name, lambda a, k: o.obj is a[0] or NotImplemented)
        if name == "__hash__":
            return Builtin(name, lambda a, k: ident_hash(o.obj))
        return MISSING
    if isinstance(o, Func):
        if name in ("__name__", "__qualname__"):
            return o.d.get(name, o.name)
        if name in o.d:
            return o.d[name]
        if name == "__doc__":
            return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
        if name == "__dict__":
            return ADict()
        if name == "__module__":
            return o.mod.name
        if name == "__get__":
            return Builtin("__get__", lambda a, k: BoundMethod(o, a[0]) if a[0] is not None else o)
        if name == "__defaults__":
            return tuple(o.defaults)
        return o.d.get(name, MISSING) if not hasattr(type(throw), name) or name in o.d else builtins_unmodelled(name)
    if isinstance(o, BoundMethod):
        if name == "__self__":
            return o.self_
        if name == "__func__":
            return o.fn
        return getattr_raw(o.fn, name)
    if isinstance(o, (ClassMethod, StaticMethod)):
        if name == "__func__":
            return o.fn
        return MISSING
    if isinstance(o, Property):
        if name in ("setter", "getter", "deleter"):
            def mk(a, k):
                p = Property(o.fget, o.fset, o.fdel)
                setattr(p, {"setter": "fset", "getter": "fget", "deleter": "fdel"}[name], a[0])
                return p
            return Builtin(name, mk)
        if name in ("fget", "fset", "fdel"):
            return getattr(o, name)
        return MISSING
    if isinstance(o, Model):
        if name in o.d:
            return o.d[name]
        f = MODEL_ATTR.get(o.kind)
        if f is not None:
            return f(o, name)
        raise Unsupported("attribute %s of a %s" % (name, o.kind))
    if isinstance(o, Unk):
        raise Unsupported("attribute %s of %r" % (name, o))
    if isinstance(o, Builtin):
        if name in ("__name__", "__qualname__"):
            return o.name
        if name == "register" and o.register is not None:
            return o.register
        raise Unsupported("attribute %s of %s" % (name, o.name))
    return builtin_attr(o, name)


def builtins_unmodelled(name):
    raise Unsupported("attribute %s of a function" % name)


ALL_CLASSES = []
MODEL_ATTR = {}
VIEW_SET = None


def exc_init(obj, a):
    if isinstance(obj, Inst) and T_BaseException in obj.cls.mro:
        w.touch(obj)
        obj.d["args"] = tuple(a)
    return None


def inst_dict(o):
    d = ADict()
    for k, v in o.d.items():
        dict_set(d, k, v)
    d.default = ("instdict", o)
    return d


def obj_unbound(name, cls):
    if name == "__init__":
        if T_type in cls.mro:
            return Builtin("type.__init__", lambda a, k: None)
        return Builtin("object.__init__", lambda a, k: exc_init(a[0], a[1:]))
    if name == "__new__":
        if T_type in cls.mro:
            return Builtin("type.__new__", lambda a, k: new_class(a[1], list(a[2]), a[3], a[0]))
        return Builtin("object.__new__", lambda a, k: Inst(a[0]))
    if name == "__setattr__":
        return Builtin(name, lambda a, k: raw_setattr(a[0], a[1], a[2]))
    if name == "__getattribute__":
        return Builtin(name, lambda a, k: getattr_(a[0], a[1]))
    if name == "__eq__":
        return Builtin(name, lambda a, k: True if a[0] is a[1] else NotImplemented)
    if name == "__hash__":
        return Builtin(name, lambda a, k: ident_hash(a[0]))
    if name in ("__str__", "__repr__"):
        return Builtin(name, lambda a, k: default_str(a[0], name))
    if name == "__init_subclass__":
        return Builtin(name, lambda a, k: None)
    if name == "__ne__":
        return Builtin(name, lambda a, k: not eq(a[0], a[1]))
    return MISSING


def ident_hash(o):
    return 0x7000000000 + getattr(o, "birth", id(o) & 0xffffff)


def default_str(o, name):
    if isinstance(o, Inst):
        if T_BaseException in o.cls.mro:
            a = o.d.get("args", ())
            if name == "__repr__":
                return mkstr([o.cls.name, "("] + sep_join(", ", [repr_(x) for x in a]) + [")"])
            if len(a) == 1 and TYPES["KeyError"] in o.cls.mro:
                return repr_(a[0])
            return "" if not a else str_(a[0]) if len(a) == 1 else repr_(tuple(a))
        return "<%s object at %d>" % (o.cls.name, o.birth)
    return repr_(o)


def object_method(o, name):
    if name == "__ne__":
        return Builtin("__ne__", lambda a, k: not eq(o, a[0]))
    if name == "__eq__":
        return Builtin("__eq__", lambda a, k: True if o is a[0] else NotImplemented)
    if name == "__hash__":
        return Builtin("__hash__", lambda a, k: hash_(o))
    if name == "__setattr__":
        return Builtin("__setattr__", lambda a, k: raw_setattr(o, a[0], a[1]))
    if name == "__str__" or name == "__repr__":
        return Builtin(name, lambda a, k: str_(o) if name == "__str__" else repr_(o))
    if name == "__init__":
        return Builtin("__init__", lambda a, k: exc_init(o, a))
    if name == "__doc__":
        return None
    if name == "__module__":
        return o.cls.mod.name if o.cls.mod else "builtins"
    return MISSING


def raw_setattr(o, name, v):
    if isinstance(o, Inst):
        w.touch(o)
        o.d[name] = v
    elif isinstance(o, Cls):
        w.touch(o)
        o.ns[name] = v
    elif isinstance(o, Mod):
        w.touch(o)
        o.ns[name] = v
    elif isinstance(o, Func):
        w.touch(o)
        o.d[name] = v
    elif isinstance(o, Model):
        w.touch(o)
        o.d[name] = v
    else:
        throw("AttributeError", "cannot set %s on %s" % (name, tname(o)))


def setattr_(o, name, v):
    if isinstance(o, Inst):
        d = o.cls.lookup(name)
        if isinstance(d, Property) and not isinstance(d, CachedProperty):
            if d.fset is None:
                throw("AttributeError", "can't set attribute %s" % name)
            call(d.fset, [o, v], {})
            return
        if isinstance(d, Inst):
            s = d.cls.lookup("__set__")
            if s is not MISSING:
                call(BoundMethod(s, d), [o, v], {})
                return
        s = o.cls.lookup("__setattr__")
        if s is not MISSING:
            call(BoundMethod(s, o), [name, v], {})
            return
        if SLOTS[0] and name not in o.d and o.cls.lookup("__slots__") is not MISSING:
            cs = [c for c in o.cls.mro if not isinstance(c, BType)]
            if len(cs) == len(o.cls.mro) - 1 and all("__slots__" in c.ns for c in cs):
                names = set()
                for c in cs:
                    x = c.ns["__slots__"]
                    names |= set([x] if isinstance(x, str) else iterate_list(x))
                if name not in names and "__dict__" not in names:
                    throw("AttributeError", "%r object has no attribute %r" % (o.cls.name, name))
    raw_setattr(o, name, v)


SLOTS = [False]


def delattr_(o, name):
    tbl = o.d if isinstance(o, (Inst, Func, Model)) else o.ns if isinstance(o, (Cls, Mod)) else None
    if tbl is None or name not in tbl:
        throw("AttributeError", name)
    w.touch(o)
    tbl = o.d if isinstance(o, (Inst, Func, Model)) else o.ns
    del tbl[name]


# -- classes ------------------------------------------------------------------------

def linearize(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            throw("TypeError", "inconsistent MRO")
        out.append(c)
        for t in seqs:
            if t and t[0] is c:
                t.pop(0)


def new_class(name, bases, ns, meta=None, mod=None, nd=None, kw=None):
    if isinstance(ns, ADict):
        ns = {k: v for k, v in (x for x in ns.e.values())}
    bases = [b for b in bases]
    if not bases:
        bases = [T_object]
    c = Cls(name, bases, dict(ns), None, mod, nd)
    if "__slots__" in c.ns:
        SLOTS[0] = True
    c.mro = linearize(c)
    m = meta if meta is not None and meta is not T_type else None
    for b in bases:
        if b.meta is not None and (m is None or m in b.meta.mro):
            m = b.meta
    c.meta = m
    if mod is None and w_cur_mod[0] is not None:
        c.mod = w_cur_mod[0]
    for k, v in list(c.ns.items()):
        if isinstance(v, Inst):
            f = v.cls.lookup("__set_name__")
            if f is not MISSING:
                call(BoundMethod(f, v), [c, k], {})
    if "__eq__" in c.ns and "__hash__" not in c.ns:
        c.ns["__hash__"] = None
    for v in c.ns.values():
        for f in ([v.fn] if isinstance(v, (ClassMethod, StaticMethod)) else
                  [v.fget, v.fset, v.fdel] if isinstance(v, Property) else [v]):
            if isinstance(f, Func) and f.cls is None and f.node is not None and \
                    nd is not None and getattr(f, "defcls", None) is None:
                pass
    ALL_CLASSES.append(c)
    return c


w_cur_mod = [None]


def class_call_hooks(c, name, bases, ns, kw):
    """metaclass __init__ and __init_subclass__ after creation."""
    for b in c.mro[1:]:
        if "__init_subclass__" in b.ns:
            f = b.ns["__init_subclass__"]
            f = f.fn if isinstance(f, ClassMethod) else f
            call(f, [c], dict(kw or {}))
            break
    m = c.meta
    if m is not None:
        f = m.lookup("__init__")
        if f is not MISSING:
            d = ADict()
            for k, v in ns.items():
                dict_set(d, k, v)
            call(f, [c, name, tuple(bases), d], dict(kw or {}))


def make_class(name, bases, ns, meta, mod, nd, kw):
    m = meta
    for b in bases:
        if isinstance(b, Cls) and b.meta is not None and (m is None or m in b.meta.mro):
            m = b.meta
    if m is not None and m is not T_type:
        f = m.lookup("__new__")
        if f is not MISSING:
            d = ADict()
            for k, v in ns.items():
                dict_set(d, k, v)
            f = f.fn if isinstance(f, StaticMethod) else f
            c = call(f, [m, name, tuple(bases), d], dict(kw))
            if isinstance(c, Cls):
                c.meta = m
                c.mod = mod
                c.node = nd
        else:
            c = new_class(name, bases, ns, m, mod, nd)
    else:
        c = new_class(name, bases, ns, None, mod, nd)
    class_call_hooks(c, name, bases, ns, kw)
    return c


def instantiate_cls(cls, args, kw):
    new = cls.lookup("__new__")
    if new is not MISSING:
        new = new.fn if isinstance(new, StaticMethod) else new
        o = call(new, [cls] + list(args), dict(kw))
        if not (isinstance(o, Inst) and cls in o.cls.mro):
            return o
    else:
        for c in cls.mro:
            if isinstance(c, BType) and c is not T_object and T_BaseException not in c.mro:
                f = SUBCLASS_NEW.get(c.name)
                if f is None:
                    raise Unsupported("subclass of builtin %s" % c.name)
                o = f(cls, args, kw)
                break
        else:
            if ABSTRACT[0]:
                for c in cls.mro:
                    for n in c.ns:
                        v = cls.lookup(n)
                        g = v.fget if isinstance(v, Property) else getattr(v, "fn", v)
                        if isinstance(g, Func) and g.d.get("__isabstractmethod__"):
                            throw("TypeError", "Can't instantiate abstract class %s" % cls.name)
            o = Inst(cls)
            o.where = w.line
            if T_BaseException in cls.mro:
                o.d["args"] = tuple(args)
    init = cls.lookup("__init__")
    if init is not MISSING:
        call(BoundMethod(init, o), args, kw)
    elif (args or kw) and new is MISSING and T_BaseException not in cls.mro \
            and not any(isinstance(c, BType) and c is not T_object for c in cls.mro):
        throw("TypeError", "%s() takes no arguments" % cls.name)
    return o


SUBCLASS_NEW = {}
ABSTRACT = [False]     # whether the program marks a method as abstract


# -- calls ---------------------------------------------------------------------------

def call(f, args, kw):
    if isinstance(f, BoundMethod):
        return call(f.fn, [f.self_] + list(args), kw)
    if isinstance(f, Func):
        return call_func(f, args, kw)
    if isinstance(f, Builtin):
        return f.fn(list(args), kw)
    if isinstance(f, BMethod):
        return builtin_method(f.obj, f.name, list(args), kw)
    if isinstance(f, BType):
        return call_btype(f, list(args), kw)
    if isinstance(f, Cls):
        if f.meta is not None:
            c = f.meta.lookup("__call__")
            if c is not MISSING:
                return call(BoundMethod(c, f), args, kw)
        if T_type in f.mro:
            # calling a metaclass
            name, bases, ns = args[0], list(args[1]), args[2]
            nsd = {k: v for k, v in ns.e.values()} if isinstance(ns, ADict) else ns
            return make_class(name, bases, nsd, f, w_cur_mod[0], None, kw)
        return instantiate_cls(f, args, kw)
    if isinstance(f, Inst):
        c = f.cls.lookup("__call__")
        if c is not MISSING:
            return call(BoundMethod(c, f), args, kw)
        throw("TypeError", "%r object is not callable" % f.cls.name)
    if isinstance(f, StaticMethod):
        return call(f.fn, args, kw)
    if isinstance(f, Model):
        c = MODEL_CALL.get(f.kind)
        if c is not None:
            return c(f, list(args), kw)
    if isinstance(f, Unk):
        raise Unsupported("call of %r" % (f,))
    throw("TypeError", "%r object is not callable" % tname(f))


MODEL_CALL = {}


def call_func(f, args, kw):
    fr = Frame(f.parent, f, f.mod)
    bind_args(f, fr.v, args, kw)
    c = f.node._code
    w.funcs.add(c.key)
    w.path_funcs[c.key] = None
    if c.is_gen:
        return GenObj(c.run_gen(fr), f.name)
    st = w.stack
    if len(st) > 900:
        throw("RecursionError", "maximum recursion depth exceeded")
    st.append((f, w.line))
    try:
        return c.run(fr)
    finally:
        st.pop()


def bind_args(f, v, args, kw):
    a = f.node.args
    names = f.node._code.argnames
    npos = len(names)
    args = list(args)
    kw = dict(kw) if kw else {}
    n = len(args)
    if n > npos:
        if a.vararg:
            v[a.vararg.arg] = tuple(args[npos:])
            args = args[:npos]
        else:
            throw("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, npos, n))
    elif a.vararg:
        v[a.vararg.arg] = ()
    for nm, x in zip(names, args):
        v[nm] = x
    nposonly = len(a.posonlyargs)
    for i in range(len(args), npos):
        nm = names[i]
        if nm in kw and i >= nposonly:
            v[nm] = kw.pop(nm)
        else:
            di = i - (npos - len(f.defaults))
            if di < 0:
                throw("TypeError", "%s() missing required argument %r" % (f.name, nm))
            v[nm] = f.defaults[di]
    for k in a.kwonlyargs:
        if k.arg in kw:
            v[k.arg] = kw.pop(k.arg)
        elif k.arg in f.kwdefaults:
            v[k.arg] = f.kwdefaults[k.arg]
        else:
            throw("TypeError", "%s() missing keyword-only argument %r" % (f.name, k.arg))
    if a.kwarg:
        d = ADict()
        for k, x in kw.items():
            dict_set(d, k, x)
        v[a.kwarg.arg] = d
    elif kw:
        for k in kw:
            if k in names:
                throw("TypeError", "%s() got multiple values for argument %r" % (f.name, k))
        throw("TypeError", "%s() got an unexpected keyword argument %r" % (f.name, sorted(kw)[0]))


def meth(o, name):
    """Special-method lookup on the type."""
    if isinstance(o, Inst):
        v = o.cls.lookup(name)
        if v is MISSING or v is None:
            return None
        return bind(v, o, o.cls)
    if isinstance(o, Cls) and o.meta is not None:
        v = o.meta.lookup(name)
        if v is MISSING or v is None:
            return None
        return bind(v, o, o.meta)
    return None


# -- truth, equality, order, hash --------------------------------------------------------

def truth(v):
    if v is None or v is False:
        return False
    if v is True:
        return True
    if isinstance(v, (int, float, str, bytes, tuple)):
        return bool(v)
    if isinstance(v, AInt):
        return not w.is_zero(v.p)
    if isinstance(v, Inst):
        m = meth(v, "__bool__")
        if m is not None:
            return truth(call(m, [], {}))
        m = meth(v, "__len__")
        if m is not None:
            return truth(call(m, [], {}))
        return True
    if isinstance(v, AList):
        return bool(v.v)
    if isinstance(v, (ADict, ASet)):
        return bool(v.e)
    if isinstance(v, ABytes):
        return bool(v.u)
    if isinstance(v, AStr):
        lo, hi = S.len_bounds(v)
        if lo > 0:
            return True
        return w.choose(2, "empty string?") == 0
    if isinstance(v, ARange):
        return truth(range_len(v))
    if isinstance(v, AFloat):
        raise Unsupported("truth of float")
    if isinstance(v, Unk):
        raise Unsupported("truth of %r" % (v,))
    if isinstance(v, Cls):
        m = meth(v, "__bool__") or meth(v, "__len__")
        if m is not None:
            return truth(call(m, [], {}))
    return True


NUM = (int, AInt)


def eq(a, b):
    r = rich(a, b, "__eq__", "__eq__")
    if r is NotImplemented:
        return a is b
    return truth(r)


def eq_val(a, b):
    r = rich(a, b, "__eq__", "__eq__")
    if r is NotImplemented:
        return a is b
    return r


def rich(a, b, op, rop):
    if isinstance(a, Inst) or (isinstance(a, Cls) and a.meta is not None):
        # reflected first when b's type is a proper subclass that overrides
        if isinstance(b, Inst) and isinstance(a, Inst) and b.cls is not a.cls and a.cls in b.cls.mro:
            m = meth(b, rop)
            if m is not None and b.cls.lookup(rop) is not a.cls.lookup(rop):
                r = call(m, [a], {})
                if r is not NotImplemented:
                    return r
        m = meth(a, op)
        if m is not None:
            r = call(m, [b], {})
            if r is not NotImplemented:
                return r
    if isinstance(b, Inst) or (isinstance(b, Cls) and b.meta is not None):
        m = meth(b, rop)
        if m is not None:
            r = call(m, [a], {})
            if r is not NotImplemented:
                return r
    if isinstance(a, Inst) or isinstance(b, Inst):
        if op == "__ne__":
            r = rich(a, b, "__eq__", "__eq__")
            if r is not NotImplemented:
                return not truth(r)
        return NotImplemented
    return prim_cmp(a, b, op)


def prim_cmp(a, b, op):
    if isinstance(a, Model) and isinstance(b, (Model, ASet)) or isinstance(b, Model) and isinstance(a, ASet):
        a, b = VIEW_SET(a), VIEW_SET(b)
        if isinstance(a, Model) and isinstance(b, Model) and a.kind == b.kind == "namespace" and op in ("__eq__", "__ne__"):
            return (sorted(a.d) == sorted(b.d) and all(eq(a.d[n], b.d[n]) for n in a.d)) == (op == "__eq__")
    if isinstance(a, AInt):
        a = w.store.norm(a)
    if isinstance(b, AInt):
        b = w.store.norm(b)
    if isinstance(a, AInt) or isinstance(b, AInt):
        if isinstance(a, NUM) and isinstance(b, NUM):
            pa, pb = w.store.poly(a), w.store.poly(b)
            d = pa.add(pb, -1)
            if op == "__eq__":
                return w.is_zero(d)
            if op == "__ne__":
                return not w.is_zero(d)
            if op == "__le__":
                return w.is_le(d)
            if op == "__lt__":
                return w.is_le(d.add(Poly.const(1)))
            if op == "__ge__":
                return w.is_le(d.scale(-1))
            if op == "__gt__":
                return w.is_le(d.scale(-1).add(Poly.const(1)))
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, float):
                fl = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}
                return prim_cmp(b, a, fl.get(op, op))
            import math
            if not math.isfinite(b):
                return {"__eq__": False, "__ne__": True, "__lt__": b > 0, "__le__": b > 0, "__gt__": b < 0,
                        "__ge__": b < 0}[op]
            if op in ("__lt__",):
                return prim_cmp(a, math.ceil(b), "__lt__")
            if op == "__le__":
                return prim_cmp(a, math.floor(b), "__le__")
            if op == "__gt__":
                return prim_cmp(a, math.floor(b), "__gt__")
            if op == "__ge__":
                return prim_cmp(a, math.ceil(b), "__ge__")
            if b == int(b):
                return prim_cmp(a, int(b), op)
            return op == "__ne__"
        if op == "__eq__":
            return NotImplemented if isinstance(b, (Inst,)) else False
        if op == "__ne__":
            return True
        return NotImplemented
    if isinstance(a, AFloat) or isinstance(b, AFloat):
        if isinstance(a, AFloat) and isinstance(b, (int, float)):
            if op == "__le__":
                return w.float_le(a.n, b, False)
            if op == "__lt__":
                return w.float_le(a.n, b, True)
            if op == "__gt__":
                return not w.float_le(a.n, b, False)
            if op == "__ge__":
                return not w.float_le(a.n, b, True)
        if isinstance(b, AFloat) and isinstance(a, (int, float)):
            return prim_cmp(b, a, {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}[op])
        raise Unsupported("float comparison")
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {"__eq__": a == b, "__ne__": a != b, "__lt__": a < b, "__le__": a <= b, "__gt__": a > b,
                "__ge__": a >= b}[op]
    if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
        if op == "__eq__":
            return S.str_eq(a, b)
        if op == "__ne__":
            return not S.str_eq(a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {"__lt__": a < b, "__le__": a <= b, "__gt__": a > b, "__ge__": a >= b}[op]
        raise Unsupported("order of abstract strings")
    if isinstance(a, (tuple, AList)) and isinstance(b, (tuple, AList)) and isinstance(a, tuple) == isinstance(b, tuple):
        x = a if isinstance(a, tuple) else a.v
        y = b if isinstance(b, tuple) else b.v
        if op in ("__eq__", "__ne__"):
            r = len(x) == len(y) and all(p is q or eq(p, q) for p, q in zip(x, y))
            return r if op == "__eq__" else not r
        for p, q in zip(x, y):
            if not eq(p, q):
                return compare(op, p, q)
        n, m = len(x), len(y)
        return {"__lt__": n < m, "__le__": n <= m, "__gt__": n > m, "__ge__": n >= m}[op]
    if isinstance(a, (bytes, ABytes)) and isinstance(b, (bytes, ABytes)):
        x, y = units(a), units(b)
        if op in ("__eq__", "__ne__"):
            r = len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
            return r if op == "__eq__" else not r
        for p, q in zip(x, y):
            if not eq(p, q):
                return compare(op, p, q)
        return {"__lt__": len(x) < len(y), "__le__": len(x) <= len(y), "__gt__": len(x) > len(y),
                "__ge__": len(x) >= len(y)}[op]
    if isinstance(a, ASet) and isinstance(b, ASet):
        sub = lambda x, y: all(c in y.e or (set_find(y, e) is not MISSING if any_abs(x.e) or any_abs(y.e) else False)
                               for c, e in list(x.e.items()))
        r = {"__eq__": sub(a, b) and sub(b, a), "__ne__": not (sub(a, b) and sub(b, a)),
             "__le__": sub(a, b), "__lt__": sub(a, b) and not sub(b, a), "__ge__": sub(b, a),
             "__gt__": sub(b, a) and not sub(a, b)}
        return r[op]
    if isinstance(a, ADict) and isinstance(b, ADict):
        if any_abs(a.e) or any_abs(b.e):
            whole_table(a)
            whole_table(b)
            r = len(a.e) == len(b.e)
            for k, v in list(a.e.values()) if r else []:
                o = dict_get(b, k)
                if o is MISSING or not truth(eq(v, o)):
                    r = False
                    break
        else:
            r = set(a.e) == set(b.e) and all(truth(eq(a.e[k][1], b.e[k][1])) for k in a.e)
        if op == "__eq__":
            return r
        if op == "__ne__":
            return not r
    if isinstance(a, ARange) and isinstance(b, ARange):
        if op in ("__eq__", "__ne__"):
            x, y = iterate_list(a), iterate_list(b)
            r = len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
            return r if op == "__eq__" else not r
    if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
        r = a.fn is b.fn and a.self_ is b.self_
        return r if op == "__eq__" else (not r if op == "__ne__" else NotImplemented)
    if isinstance(a, Unk) or isinstance(b, Unk):
        raise Unsupported("comparison of %r, %r" % (a, b))
    if op == "__eq__":
        return a is b
    if op == "__ne__":
        return a is not b
    return NotImplemented


REFL = {"__eq__": "__eq__", "__ne__": "__ne__", "__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__",
        "__ge__": "__le__"}


def compare(op, a, b):
    r = rich(a, b, op, REFL[op])
    if r is NotImplemented:
        if op == "__eq__":
            return a is b
        if op == "__ne__":
            return a is not b
        throw("TypeError", "%r not supported between %r and %r" % (op, tname(a), tname(b)))
    return r


def hash_(v):
    if isinstance(v, Inst):
        h = v.cls.lookup("__hash__")
        if h is None:
            throw("TypeError", "unhashable type: %r" % v.cls.name)
        if h is MISSING:
            return ident_hash(v)
        return call(BoundMethod(h, v), [], {}) if isinstance(h, Func) else call(bind(h, v, v.cls), [], {})
    if isinstance(v, AInt):
        return v
    if isinstance(v, (bool, int)):
        return hash(int(v))
    if isinstance(v, (AList, ADict, ASet)):
        if isinstance(v, ASet) and v.frozen:
            return 1
        throw("TypeError", "unhashable type: %r" % tname(v))
    if isinstance(v, (str, bytes, float)) or v is None:
        return hash(v) & 0xfffffff
    if isinstance(v, tuple):
        return hash(canon_key(v)) & 0xfffffff
    return ident_hash(v)


class AbsKey(Unsupported):
    """v: the abstract integer the key is equal to, or None for keys that are
    only comparable as a whole."""

    def __init__(self, v):
        Unsupported.__init__(self, "hash of a value with abstract components")
        self.v = v


def abs_key(a):
    return ("abst", num._fresh_id()) if a.v is None else ("abs", w.store.poly(a.v))


def scan_keys(entries, k):
    """Entry equal to k, comparing keys one by one; entries: [(canonical, key)]."""
    for c, kk in entries:
        if isinstance(kk, (int, AInt)) or kk is None:
            continue
        if truth(eq(kk, k)):
            return c
    return MISSING


def any_abs(e):
    return any(isinstance(c, tuple) and c and c[0] in ("abs", "abst") for c in e)


def is_abst(c):
    return isinstance(c, tuple) and c and c[0] == "abst"


def canon_key(k):
    """Canonical identity of a dict key; AbsKey when it is abstract."""
    if type(k) is int:
        return k
    if isinstance(k, bool):
        return int(k)
    if isinstance(k, str):
        return ("s", k)
    if k is None:
        return ("n",)
    if isinstance(k, AInt):
        k = w.store.norm(k)
        if isinstance(k, int):
            return k
        raise AbsKey(k)
    if isinstance(k, tuple):
        try:
            return ("t",) + tuple([canon_key(x) for x in k])
        except AbsKey:
            raise AbsKey(None) from None
    if isinstance(k, Inst):
        if k.cls.lookup("_fields") is not MISSING and k.cls.lookup("_asdict") is not MISSING:
            return canon_key(tuple(k.d[f] for f in k.cls.lookup("_fields")))
        h = k.cls.lookup("__hash__")
        if h is None:
            throw("TypeError", "unhashable type: %r" % k.cls.name)
        if h is MISSING:
            return ("id", k.birth)
        if isinstance(h, Builtin):
            r = call(h, [k], {})
        else:
            r = call(bind(h, k, k.cls), [], {})
        if isinstance(r, AInt):
            r = w.store.norm(r)
            if isinstance(r, AInt):
                raise AbsKey(r)
        return r
    if isinstance(k, float):
        return int(k) if k == int(k) else ("f", k)
    if isinstance(k, bytes):
        return ("b", k)
    if isinstance(k, ASet) and k.frozen:
        if any(isinstance(c, tuple) and c and c[0] in ("abs", "abst") for c in k.e):
            raise AbsKey(None)
        return ("fs", frozenset(k.e))
    if isinstance(k, (AList, ADict, ASet)):
        throw("TypeError", "unhashable type: %r" % tname(k))
    if isinstance(k, AStr):
        k = S.renorm(k)
        if isinstance(k, str):
            return ("s", k)
        raise Unsupported("abstract string as dict key")
    if isinstance(k, BoundMethod):
        return ("bm", id(k.fn), id(k.self_))
    return ("id", getattr(k, "birth", None) or ("h", id(k)))


def dict_find(d, k):
    """Canonical key of the entry equal to k, or MISSING (partitions)."""
    try:
        c = canon_key(k)
    except AbsKey as a:
        if a.v is None:
            return scan_keys([(c, e[0]) for c, e in d.e.items()], k)
        return dict_find_abs(d, a.v)
    if d.absk == 2 and isinstance(c, int):
        # entries written at abstract keys hide the older ones
        for ck in list(d.e):
            if isinstance(ck, tuple) and ck and ck[0] == "abs" and w.is_zero(ck[1].add(Poly.const(c), -1)):
                return ck
    if c in d.e:
        return c
    if d.absk:
        for ck, (kk, _) in d.e.items():
            if isinstance(ck, tuple) and ck and ck[0] == "abs" and isinstance(c, int):
                if w.is_zero(ck[1].add(Poly.const(c), -1)):
                    return ck
        if not isinstance(c, int):
            return scan_keys([(ck, e[0]) for ck, e in list(d.e.items()) if is_abst(ck)], k)
    return MISSING


BIG = 300


def dict_find_abs(d, v):
    """v: abstract int key."""
    p = w.store.poly(v)
    ints = [c for c in d.e if isinstance(c, int)]
    lo, hi = w.store.interval(p)
    ints = [c for c in ints if lo <= c <= hi]
    for c in list(d.e):
        if isinstance(c, tuple) and c and c[0] == "abs":
            if w.is_zero(p.add(c[1], -1)):
                return c
    if len(ints) > 24 and len(d.e) > BIG:
        key = ("dict-hit", d.birth)
        n = node("hit", Poly.const(d.birth), p)
        witness.DICTS[d.birth] = d
        # one partition per answer; consistent along the partition
        m = ("hit", d.birth, p)
        iv = w.store.iv.get(n)
        if iv is not None:
            hit = iv[0] == 1
        else:
            hit = w.choose(2, "key %s registered" % (p,)) == 0
            w.store.iv[n] = (1, 1) if hit else (0, 0)
        if hit:
            return ("summary", v, tuple(ints) if len(ints) != len(d.e) else None)
        return MISSING
    for c in ints:
        if w.is_zero(p.add(Poly.const(-c))):
            return c
    return MISSING


_summ_cache = {}


def summary_value(d, v, ints):
    """Join of all entries of a large table at an abstract key."""
    ck = (d.birth, ints, len(d.e))
    s = _summ_cache.get(ck)
    if s is None:
        vals = [(c, d.e[c][1]) for c in (ints if ints is not None else [c for c in d.e if isinstance(c, int)])]
        if not all(isinstance(x, Inst) for _, x in vals):
            raise Unsupported("abstract key in a table of non-objects")
        cls = {x.cls for _, x in vals}
        if len(cls) != 1:
            raise Unsupported("abstract key in a heterogeneous table")
        attrs = {}
        names = set.intersection(*[set(x.d) for _, x in vals])
        for n in names:
            col = [(c, x.d[n]) for c, x in vals]
            if all(isinstance(y, int) and not isinstance(y, bool) and y == c for c, y in col):
                attrs[n] = "KEY"
            elif all(isinstance(y, str) for _, y in col):
                attrs[n] = ("STR", frozenset(y for _, y in col))
            elif all(y is None for _, y in col):
                attrs[n] = ("CONST", None)
            else:
                attrs[n] = ("UNK",)
        s = (cls.pop(), attrs)
        _summ_cache[ck] = s
    cls, attrs = s
    p = w.store.poly(v)
    o = Inst(cls)
    for n, a in attrs.items():
        if a == "KEY":
            o.d[n] = v
        elif a[0] == "STR":
            o.d[n] = mkstr([Hole("tbl", (n, d.birth, p), values=a[1])])
        elif a[0] == "CONST":
            o.d[n] = a[1]
        else:
            o.d[n] = Unk("join of attribute %s" % n)
    return o


def dict_get(d, k, default=MISSING):
    c = dict_find(d, k)
    if c is MISSING:
        return default
    if isinstance(c, tuple) and c and c[0] == "summary":
        return summary_value(d, c[1], c[2])
    return d.e[c][1]


def whole_table(d):
    if isinstance(d, ADict) and d.absk == 2 and any(isinstance(c, tuple) and c and c[0] == "abs" for c in d.e):
        raise Unsupported("a large table as a whole after a write at an abstract key")


def dict_set(d, k, v):
    if d.default is not None and isinstance(d.default, tuple) and d.default[0] == "instdict":
        raw_setattr(d.default[1], k, v)
    c = dict_find(d, k)
    w.touch(d)
    if c is MISSING:
        try:
            c = canon_key(k)
        except AbsKey as a:
            c = abs_key(a)
            d.absk = True
        d.e[c] = (k, v)
    elif isinstance(c, tuple) and c and c[0] == "summary":
        try:
            canon_key(k)
        except AbsKey as a:
            d.absk = 2
            d.e[("abs", w.store.poly(a.v))] = (k, v)
    else:
        d.e[c] = (d.e[c][0], v)


def dict_del(d, k):
    c = dict_find(d, k)
    if c is MISSING:
        throw("KeyError", k)
    w.touch(d)
    del d.e[c]


def set_add(s, v):
    c = set_find(s, v)
    if c is MISSING:
        w.touch(s)
        try:
            s.e[canon_key(v)] = v
        except AbsKey as a:
            s.e[abs_key(a)] = v


def set_find(s, v):
    try:
        c = canon_key(v)
    except AbsKey as a:
        if a.v is None:
            return scan_keys(list(s.e.items()), v)
        p = w.store.poly(a.v)
        for ck in list(s.e):
            q = ck[1] if isinstance(ck, tuple) and ck and ck[0] == "abs" else Poly.const(ck) if isinstance(ck, int) else None
            if q is not None and w.is_zero(p.add(q, -1)):
                return ck
        return MISSING
    if c in s.e:
        return c
    if isinstance(c, int):
        for ck in list(s.e):
            if isinstance(ck, tuple) and ck and ck[0] == "abs":
                if w.is_zero(ck[1].add(Poly.const(c), -1)):
                    return ck
    else:
        return scan_keys([(ck, x) for ck, x in list(s.e.items()) if is_abst(ck)], v)
    return MISSING


def mkset(items, frozen=False):
    s = ASet()
    for i in items:
        set_add(s, i)
    s.frozen = frozen
    return s


def mkdict(pairs):
    d = ADict()
    for k, v in pairs:
        dict_set(d, k, v)
    return d


def units(b):
    return list(b) if isinstance(b, bytes) else list(b.u)


# -- iteration -------------------------------------------------------------------------

KMAX = 40


def iterate(v):
    """Host generator over the elements."""
    if isinstance(v, AList):
        i = 0
        while i < len(v.v):
            yield v.v[i]
            i += 1
        return
    if isinstance(v, tuple):
        yield from v
        return
    if isinstance(v, str):
        yield from v
        return
    if isinstance(v, bytes):
        yield from v
        return
    if isinstance(v, ABytes):
        yield from v.u
        return
    if isinstance(v, ADict):
        whole_table(v)
        ks = [k for k, _ in v.e.values()]
        n = len(v.e)
        for k in ks:
            yield k
            if len(v.e) != n:
                throw("RuntimeError", "dictionary changed size during iteration")
        return
    if isinstance(v, ASet):
        yield from list(v.e.values())
        return
    if isinstance(v, ARange):
        yield from iter_range(v)
        return
    if isinstance(v, AIter):
        while v.pos < len(v.items):
            w.touch(v)
            x = v.items[v.pos]
            v.pos += 1
            yield x
        return
    if isinstance(v, (GenObj, LazyIter)):
        # no delegation: leaving the loop must not close the iterator
        for x in v.host:
            yield x
        return
    if isinstance(v, AStr):
        n = S.fixed_len(v)
        if n is None:
            raise Unsupported("iteration over an abstract string")
        for i in range(n):
            yield str_slice(v, i, i + 1)
        return
    m = meth(v, "__iter__")
    if m is not None:
        it = call(m, [], {})
        if isinstance(it, Inst):
            nx = meth(it, "__next__")
            if nx is None:
                throw("TypeError", "iter() returned non-iterator")
            while True:
                try:
                    x = call(nx, [], {})
                except PyExc as e:
                    if is_instance(e.value, TYPES["StopIteration"]):
                        return
                    raise
                yield x
        else:
            for x in iterate(it):
                yield x
        return
    m = meth(v, "__getitem__")
    if m is not None:
        i = 0
        while True:
            try:
                x = call(m, [i], {})
            except PyExc as e:
                if is_instance(e.value, TYPES["IndexError"]):
                    return
                raise
            yield x
            i += 1
            if i > 5000:
                raise Diverges("unbounded __getitem__ iteration")
        return
    if isinstance(v, Model):
        f = MODEL_ITER.get(v.kind)
        if f is not None:
            yield from f(v)
            return
    if isinstance(v, Unk):
        raise Unsupported("iteration over %r" % (v,))
    throw("TypeError", "%r object is not iterable" % tname(v))


MODEL_ITER = {}


def iterate_list(v):
    return list(iterate(v))


def range_len(r):
    st = r.step
    if isinstance(st, AInt):
        raise Unsupported("abstract range step")
    if isinstance(r.start, int) and isinstance(r.stop, int):
        return len(range(r.start, r.stop, st))
    d = arith("-", r.stop, r.start)
    if st == 1:
        if truth(prim_cmp(d, 0, "__le__")):
            return 0
        return d
    raise Unsupported("length of an abstract range with a step")


def iter_range(r):
    a, b, s = w.store.norm(r.start), w.store.norm(r.stop), w.store.norm(r.step)
    if isinstance(s, AInt):
        raise Unsupported("abstract range step")
    if isinstance(a, int) and isinstance(b, int):
        yield from range(a, b, s)
        return
    i = a
    n = 0
    while truth(prim_cmp(i, b, "__lt__" if s > 0 else "__gt__")):
        if n >= KMAX:
            raise KLimit("range longer than %d" % KMAX)
        yield i
        i = arith("+", i, s)
        n += 1


def next_(it, default=MISSING):
    if isinstance(it, (GenObj, LazyIter)):
        try:
            return next(it.host)
        except StopIteration as e:
            if default is not MISSING:
                return default
            throw("StopIteration")
    if isinstance(it, AIter):
        if it.pos < len(it.items):
            w.touch(it)
            x = it.items[it.pos]
            it.pos += 1
            return x
        if default is not MISSING:
            return default
        throw("StopIteration")
    m = meth(it, "__next__")
    if m is not None:
        try:
            return call(m, [], {})
        except PyExc as e:
            if default is not MISSING and is_instance(e.value, TYPES["StopIteration"]):
                return default
            raise
    throw("TypeError", "%r object is not an iterator" % tname(it))


def iter_(v):
    if isinstance(v, (GenObj, LazyIter, AIter)):
        return v
    m = meth(v, "__iter__")
    if m is not None:
        return call(m, [], {})
    if isinstance(v, (int, AInt, float)) or v is None:
        throw("TypeError", "not iterable")
    if isinstance(v, AList):
        return LazyIter(iterate(v))
    return LazyIter(iterate(v))


# -- arithmetic ---------------------------------------------------------------------------

BIN = {"+": ("__add__", "__radd__"), "-": ("__sub__", "__rsub__"), "*": ("__mul__", "__rmul__"),
       "/": ("__truediv__", "__rtruediv__"), "//": ("__floordiv__", "__rfloordiv__"), "%": ("__mod__", "__rmod__"),
       "&": ("__and__", "__rand__"), "|": ("__or__", "__ror__"), "^": ("__xor__", "__rxor__"),
       "<<": ("__lshift__", "__rlshift__"), ">>": ("__rshift__", "__rrshift__"), "**": ("__pow__", "__rpow__"),
       "@": ("__matmul__", "__rmatmul__")}


def mod_(st, pa, pb):
    r = num.b_mod(st, pa, pb)
    if len(r.t) == 1 and not r.is_const() and st.interval(pb)[0] > 0:
        # -x % b is 0 or b - x % b
        x = next(iter(r.t))[0]
        a = pa if pb.is_const() else x.args[0] if isinstance(x, num.Node) and x.op == "mod" else pa
        if pb.is_const():
            a = Poly({m: c for m, c in a.t.items() if c % pb.cval()})
        if isinstance(x, num.Node) and x.op == "mod" and a.t and sum(1 if c < 0 else -1 for c in a.t.values()) > 0:
            y = num.b_mod(st, a.scale(-1), pb)
            if truth(prim_cmp(mk(y), 0, "__eq__")):
                return 0
            return arith("-", mk(pb), mk(y))
    return mk(r)


def arith(op, a, b):
    if type(a) is int and type(b) is int:
        return host_arith(op, a, b)
    if isinstance(a, Inst) or isinstance(b, Inst):
        return inst_arith(op, a, b)
    if isinstance(a, AInt):
        a = w.store.norm(a)
    if isinstance(b, AInt):
        b = w.store.norm(b)
    if isinstance(a, (int, AInt)) and isinstance(b, (int, AInt)):
        if not isinstance(a, AInt) and not isinstance(b, AInt):
            return host_arith(op, a, b)
        return abs_arith(op, a, b)
    return other_arith(op, a, b)


def host_arith(op, a, b):
    try:
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "//":
            return a // b
        if op == "%":
            return a % b
        if op == "/":
            return a / b
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return a ^ b
        if op == "<<":
            return a << b
        if op == ">>":
            return a >> b
        if op == "**":
            return a ** b
    except ZeroDivisionError:
        throw("ZeroDivisionError", "division by zero")
    except ValueError as e:
        throw("ValueError", str(e))
    except OverflowError as e:
        throw("OverflowError", str(e))
    raise Unsupported("operator " + op)


def mk(p):
    if p.is_const():
        return p.cval()
    return AInt(p)


def abs_arith(op, a, b):
    st = w.store
    pa, pb = st.poly(a), st.poly(b)
    if op == "+":
        return mk(pa.add(pb))
    if op == "-":
        return mk(pa.add(pb, -1))
    if op == "*":
        return mk(st.simp(pa.mul(pb)))
    if op in ("//", "%", "/"):
        if pb.is_const():
            if pb.cval() == 0:
                throw("ZeroDivisionError", "division by zero")
        elif w.is_zero(pb):
            throw("ZeroDivisionError", "division by zero")
        pa, pb = st.simp(pa), st.simp(pb)
        if op == "//":
            return mk(num.b_floordiv(st, pa, pb))
        if op == "%":
            return mod_(st, pa, pb)
        return AFloat(node("fdiv", pa, pb))
    if op == "&":
        return mk(num.b_and(st, pa, pb))
    if op == "|":
        return mk(num.b_or(st, pa, pb))
    if op == "^":
        return mk(num.b_xor(st, pa, pb))
    if op == "<<":
        k = w.concretize(b)
        if k < 0:
            throw("ValueError", "negative shift count")
        return mk(st.simp(st.poly(a)).scale(1 << k))
    if op == ">>":
        k = w.concretize(b)
        if k < 0:
            throw("ValueError", "negative shift count")
        return mk(num.b_shr(st, st.simp(st.poly(a)), k))
    if op == "**":
        if isinstance(b, int) and 0 <= b <= 4:
            r = Poly.const(1)
            for _ in range(b):
                r = r.mul(pa)
            return mk(r)
        if isinstance(a, int):
            return a ** w.concretize(b)
    raise Unsupported("operator %s on abstract ints" % op)


def inst_arith(op, a, b):
    m, r = BIN[op]
    if isinstance(a, Inst):
        if isinstance(b, Inst) and b.cls is not a.cls and a.cls in b.cls.mro and b.cls.lookup(r) is not MISSING \
                and b.cls.lookup(r) is not a.cls.lookup(r):
            f = meth(b, r)
            if f is not None:
                x = call(f, [a], {})
                if x is not NotImplemented:
                    return x
        f = meth(a, m)
        if f is not None:
            x = call(f, [b], {})
            if x is not NotImplemented:
                return x
    if isinstance(b, Inst):
        if isinstance(a, (str, AStr)) and op == "%":
            return fmt_percent(a, b)
        f = meth(b, r)
        if f is not None:
            x = call(f, [a], {})
            if x is not NotImplemented:
                return x
    throw("TypeError", "unsupported operand types for %s: %r and %r" % (op, tname(a), tname(b)))


def other_arith(op, a, b):
    if isinstance(a, Model) or isinstance(b, Model):
        a, b = VIEW_SET(a), (VIEW_SET(b) if isinstance(b, (ASet, Model)) else mkset(iterate_list(b)) if isinstance(a, Model) else b)
        if isinstance(a, Model) or isinstance(b, Model):
            raise Unsupported("%s of %r and %r" % (op, a, b))
    if op == "%" and isinstance(a, (str, AStr)):
        return fmt_percent(a, b)
    if op == "%" and isinstance(a, bytes):
        raise Unsupported("bytes formatting")
    if op == "+":
        if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
            return mkstr([a, b])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, AList) and isinstance(b, AList) and a.kind == b.kind == "list":
            return AList(a.v + b.v)
        if isinstance(a, (bytes, ABytes)) and isinstance(b, (bytes, ABytes)):
            return mkbytes(units(a) + units(b))
        if isinstance(a, AList) and a.kind == "bytearray":
            r = AList(a.v + iterate_list(b), "bytearray")
            return r
        if isinstance(a, (bytes, ABytes)) and isinstance(b, AList) and b.kind == "bytearray":
            return mkbytes(units(a) + b.v)
        if isinstance(a, AList) and a.kind == "deque" and isinstance(b, AList):
            r = AList(a.v + b.v, "deque")
            return r
    if op == "*":
        for x, y in ((a, b), (b, a)):
            if isinstance(y, (int, AInt)) and isinstance(x, (str, AStr, tuple, AList, bytes, ABytes)):
                y = w.store.norm(y)
                if isinstance(y, AInt):
                    y = w.concretize(y)
                y = max(0, int(y))
                if isinstance(x, (str, AStr)):
                    return x * y if isinstance(x, str) else mkstr([x] * y)
                if isinstance(x, tuple):
                    return x * y
                if isinstance(x, AList):
                    return AList(x.v * y, x.kind)
                return mkbytes(units(x) * y)
    if op == "|" and isinstance(a, ADict) and isinstance(b, ADict):
        r = ADict()
        r.e = dict(a.e)
        r.absk = a.absk
        for k, v in b.e.values():
            dict_set(r, k, v)
        return r
    if isinstance(a, ASet) and isinstance(b, ASet):
        if op == "|":
            return mkset(list(a.e.values()) + list(b.e.values()), a.frozen)
        if op == "&":
            return mkset([x for x in a.e.values() if set_find(b, x) is not MISSING], a.frozen)
        if op == "-":
            return mkset([x for x in a.e.values() if set_find(b, x) is MISSING], a.frozen)
        if op == "^":
            return mkset([x for x in a.e.values() if set_find(b, x) is MISSING] +
                         [x for x in b.e.values() if set_find(a, x) is MISSING], a.frozen)
    if isinstance(a, (int, float, AFloat, AInt)) and isinstance(b, (int, float, AFloat, AInt)):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return host_arith(op, a, b)
        na = a.n if isinstance(a, AFloat) else w.store.poly(a) if isinstance(a, AInt) else a
        nb = b.n if isinstance(b, AFloat) else w.store.poly(b) if isinstance(b, AInt) else b
        if op == "+":
            return AFloat(node("fadd", na, nb))
        if op == "-":
            return AFloat(node("fadd", na, node("fmul", nb, -1.0) if not isinstance(nb, (int, float)) else -nb))
        if op == "*":
            return AFloat(node("fmul", na, nb))
        if op == "/":
            return AFloat(node("fdiv", na, nb))
        raise Unsupported("float %s" % op)
    if op == "|" and isinstance(a, (Cls, Model)) and (isinstance(b, (Cls, Model)) or b is None):
        l = []
        for x in (a, b):
            if isinstance(x, Model) and x.kind == "uniontype":
                l += x.h
            else:
                l.append(T_none if x is None else x)
        return Model("uniontype", {}, l)
    if isinstance(a, Unk) or isinstance(b, Unk):
        raise Unsupported("operator %s on %r, %r" % (op, a, b))
    throw("TypeError", "unsupported operand type(s) for %s: %r and %r" % (op, tname(a), tname(b)))


def inplace(op, a, b):
    if isinstance(a, AList) and op == "+":
        items = iterate_list(b)
        w.touch(a)
        a.v.extend(items)
        trim(a)
        return a
    if isinstance(a, AList) and op == "*":
        n = w.concretize(b)
        w.touch(a)
        a.v[:] = a.v * n
        return a
    if isinstance(a, ASet) and not a.frozen and op in ("|", "&", "-", "^") and isinstance(b, ASet):
        r = other_arith(op, a, b)
        w.touch(a)
        a.e = r.e
        return a
    if isinstance(a, ADict) and op == "|":
        for k in iterate_list(b):
            dict_set(a, k, getitem(b, k))
        return a
    if isinstance(a, Inst):
        m = meth(a, "__i" + BIN[op][0][2:])
        if m is not None:
            r = call(m, [b], {})
            if r is not NotImplemented:
                return r
    return arith(op, a, b)


def trim(a, left=True):
    if a.maxlen is not None and len(a.v) > a.maxlen:
        if left:
            del a.v[:len(a.v) - a.maxlen]
        else:
            del a.v[a.maxlen:]


def unary(op, v):
    if op == "not":
        return not truth(v)
    if isinstance(v, Inst):
        m = meth(v, {"-": "__neg__", "+": "__pos__", "~": "__invert__"}[op])
        if m is None:
            throw("TypeError", "bad operand type for unary %s: %r" % (op, v.cls.name))
        return call(m, [], {})
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, AInt):
        v = w.store.norm(v)
    if isinstance(v, (int, float)):
        return -v if op == "-" else +v if op == "+" else ~v
    if isinstance(v, AInt):
        p = v.p
        if op == "-":
            return AInt(p.scale(-1))
        if op == "+":
            return v
        return AInt(p.scale(-1).add(Poly.const(-1)))
    if isinstance(v, AFloat):
        return AFloat(node("fmul", v.n, -1.0)) if op == "-" else v
    throw("TypeError", "bad operand type for unary %s: %r" % (op, tname(v)))


# -- subscripts ---------------------------------------------------------------------------

def to_index(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, AInt):
        v = w.store.norm(v)
        return v
    if isinstance(v, Inst):
        m = meth(v, "__index__")
        if m is not None:
            return call(m, [], {})
    throw("TypeError", "indices must be integers, not %s" % tname(v))


def conc_slice(s, n):
    def c(x):
        if x is None:
            return None
        x = to_index(x)
        if isinstance(x, AInt):
            # beyond the end is the end
            p = w.store.poly(x)
            lo, hi = w.store.interval(p)
            if lo >= n:
                return n
            if lo < 0:
                x = w.concretize(x)
            else:
                for k in range(int(lo), n):
                    if w.is_zero(p.add(Poly.const(-k))):
                        return k
                return n
        return x
    return slice(c(s.start), c(s.stop), c(s.step))


def seq_index(seq, i, what):
    n = len(seq)
    i = to_index(i)
    if isinstance(i, AInt):
        p = w.store.poly(i)
        if truth(prim_cmp(i, n, "__ge__")) or truth(prim_cmp(i, -n, "__lt__")):
            throw("IndexError", "%s index out of range" % what)
        i = w.concretize(i, 600)
    if not -n <= i < n:
        throw("IndexError", "%s index out of range" % what)
    return i


def str_slice(v, a, b):
    k = S.Skel(v)
    if S.fixed_len(v) is None:
        # allow prefixes that stay inside the leading literal
        p = v.parts[0]
        if isinstance(p, str) and a is not None and b is not None and 0 <= a <= b <= len(p):
            return p[a:b]
        if isinstance(p, str) and b is None and a is not None and 0 <= a <= len(p):
            return mkstr([p[a:]] + list(v.parts[1:]))
        raise Unsupported("slice of a string of unknown length")
    return k.back(k.s[0][a:b])


def getitem(o, i):
    if isinstance(o, ADict):
        v = dict_get(o, i)
        if v is MISSING:
            if o.default is not None and not isinstance(o.default, tuple):
                v = call(o.default, [], {})
                if getattr(o.default, "name", None) == "zero":
                    return v
                dict_set(o, i, v)
                return v
            throw("KeyError", i)
        return v
    if isinstance(o, AList):
        if isinstance(i, ASlice):
            return AList(o.v[conc_slice(i, len(o.v))], o.kind if o.kind != "deque" else "list")
        return o.v[seq_index(o.v, i, "list")]
    if isinstance(o, Inst):
        m = meth(o, "__getitem__")
        if m is None:
            throw("TypeError", "%r object is not subscriptable" % o.cls.name)
        return call(m, [i], {})
    if isinstance(o, tuple):
        if isinstance(i, ASlice):
            return o[conc_slice(i, len(o))]
        return o[seq_index(o, i, "tuple")]
    if isinstance(o, bytes):
        if isinstance(i, ASlice):
            return o[conc_slice(i, len(o))]
        return o[seq_index(o, i, "index")]
    if isinstance(o, ABytes):
        if isinstance(i, ASlice):
            return mkbytes(o.u[conc_slice(i, len(o.u))])
        return o.u[seq_index(o.u, i, "index")]
    if isinstance(o, str):
        if isinstance(i, ASlice):
            return o[conc_slice(i, len(o))]
        return o[seq_index(o, i, "string")]
    if isinstance(o, AStr):
        o = S.renorm(o)
        if isinstance(o, str):
            return getitem(o, i)
        if isinstance(i, ASlice):
            if i.step not in (None, 1):
                raise Unsupported("stepped slice of abstract string")
            return str_slice(o, i.start, i.stop)
        i = to_index(i)
        if i == -1 and isinstance(o.parts[-1], str):
            return o.parts[-1][-1]
        return str_slice(o, i, i + 1)
    if isinstance(o, ARange):
        if isinstance(i, ASlice):
            l = iterate_list(o)
            return tuple(l[conc_slice(i, len(l))])
        i = to_index(i)
        if isinstance(i, int) and i >= 0 and isinstance(o.start, int) and isinstance(o.stop, int):
            l = range(o.start, o.stop, o.step)
            return l[seq_index(l, i, "range")]
        n = range_len(o)
        if truth(prim_cmp(i, 0, "__lt__")):
            i = arith("+", i, n)
            if truth(prim_cmp(i, 0, "__lt__")):
                throw("IndexError", "range object index out of range")
        if truth(prim_cmp(i, n, "__ge__")):
            throw("IndexError", "range object index out of range")
        return arith("+", o.start, arith("*", i, o.step))
    if isinstance(o, Cls):
        m = meth(o, "__getitem__")
        if m is not None:
            return call(m, [i], {})
        m = o.lookup("__class_getitem__")
        if m is not MISSING:
            return call(getattr_(o, "__class_getitem__"), [i], {})
        return o      # typing-style subscription
    if isinstance(o, Model):
        f = MODEL_ATTR.get(o.kind)
        g = f(o, "__getitem__") if f else MISSING
        if g is not MISSING:
            return call(g, [i], {})
        if o.kind == "typing":
            return o
    if isinstance(o, Unk):
        raise Unsupported("subscript of %r" % (o,))
    throw("TypeError", "%r object is not subscriptable" % tname(o))


def setitem(o, i, v):
    if isinstance(o, ADict):
        dict_set(o, i, v)
        return
    if isinstance(o, AList):
        if isinstance(i, ASlice):
            s = conc_slice(i, len(o.v))
            items = iterate_list(v)
            w.touch(o)
            o.v[s] = items
            return
        k = seq_index(o.v, i, "list assignment")
        w.touch(o)
        o.v[k] = v
        return
    m = meth(o, "__setitem__")
    if m is not None:
        call(m, [i, v], {})
        return
    throw("TypeError", "%r object does not support item assignment" % tname(o))


def delitem(o, i):
    if isinstance(o, ADict):
        dict_del(o, i)
        return
    if isinstance(o, AList):
        if isinstance(i, ASlice):
            s = conc_slice(i, len(o.v))
            w.touch(o)
            del o.v[s]
            return
        k = seq_index(o.v, i, "list assignment")
        w.touch(o)
        del o.v[k]
        return
    m = meth(o, "__delitem__")
    if m is not None:
        call(m, [i], {})
        return
    throw("TypeError", "%r object doesn't support item deletion" % tname(o))


def contains(o, x):
    if isinstance(o, (tuple, AList)):
        for y in (o if isinstance(o, tuple) else list(o.v)):
            if x is y or eq(y, x):
                return True
        return False
    if isinstance(o, ADict):
        return dict_find(o, x) is not MISSING
    if isinstance(o, ASet):
        return set_find(o, x) is not MISSING
    if isinstance(o, (str, AStr)):
        if not isinstance(x, (str, AStr)):
            throw("TypeError", "'in <string>' requires string as left operand")
        return S.contains(x, o)
    if isinstance(o, (bytes, ABytes)):
        if isinstance(x, (bytes, ABytes)):
            if isinstance(o, bytes) and isinstance(x, bytes):
                return x in o
            raise Unsupported("bytes containment")
        return any(eq(y, x) for y in units(o))
    if isinstance(o, ARange):
        if isinstance(x, (int, AInt)) and o.step == 1:
            return truth(prim_cmp(x, o.start, "__ge__")) and truth(prim_cmp(x, o.stop, "__lt__"))
        return any(eq(y, x) for y in iterate(o))
    if isinstance(o, Model) and o.kind == "namespace":
        return x in o.d
    m = meth(o, "__contains__")
    if m is not None:
        return truth(call(m, [x], {}))
    for y in iterate(o):
        if y is x or eq(y, x):
            return True
    return False


def len_(v):
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, AList):
        return len(v.v)
    if isinstance(v, (ADict, ASet)):
        whole_table(v)
        return len(v.e)
    if isinstance(v, ABytes):
        return len(v.u)
    if isinstance(v, ARange):
        return range_len(v)
    if isinstance(v, AStr):
        n = S.fixed_len(v)
        if n is not None:
            return n
        n = digits_len(v)
        if n is not None:
            return n
        lo, hi = S.len_bounds(v)
        n = node("strlen", Poly.const(hash(v) & 0xffffffff))
        w.store.iv.setdefault(n, (lo, hi))
        witness.STRS[n] = (v, lo, hi)
        return AInt(Poly.atom(n))
    m = meth(v, "__len__")
    if m is not None:
        r = call(m, [], {})
        if isinstance(r, (int, AInt)):
            if truth(prim_cmp(r, 0, "__lt__")):
                throw("ValueError", "__len__() should return >= 0")
            return r
        if isinstance(r, Inst):
            throw("TypeError", "object cannot be interpreted as an integer")
        return r
    throw("TypeError", "object of type %r has no len()" % tname(v))


def digits_len(v):
    """Length of a template whose open holes are numbers in positional notation."""
    n = 0
    for p in S.parts_of(v):
        if isinstance(p, str):
            n = arith("+", n, len(p))
        elif p.minlen == p.maxlen:
            n = arith("+", n, p.minlen)
        elif p.kind == "fmt" and p.key[0] in ("%x", "%X", "hex()", "b", "o"):
            x = w.store.norm(AInt(p.key[1]))
            lo, hi = w.store.interval(p.key[1])
            if lo < 0 or hi == INF or hi > 1 << 64:
                return None
            n = arith("+", n, 2 if p.key[0] == "hex()" else 0)
            if not isinstance(x, AInt):
                n = arith("+", n, len(S.host_fmt("%x" if p.key[0] == "hex()" else p.key[0], int(x))))
            elif truth(prim_cmp(x, 0, "__eq__")):
                n = arith("+", n, 1)
            else:
                k = {"b": 1, "o": 3}.get(p.key[0], 4)
                bl = mk(num.b_bitlen(w.store, w.store.poly(x)))
                n = arith("+", n, arith("//", arith("+", bl, k - 1), k))
        else:
            return None
    return n


# -- conversion to str ------------------------------------------------------------------

def str_(v):
    if isinstance(v, (str, AStr)):
        return v
    if isinstance(v, Inst):
        m = v.cls.lookup("__str__")
        if m is MISSING:
            m = v.cls.lookup("__repr__")
        if m is not MISSING:
            r = call(bind(m, v, v.cls), [], {})
            if not isinstance(r, (str, AStr)):
                throw("TypeError", "__str__ returned non-string (type %s)" % tname(r))
            return r
        return default_str(v, "__str__")
    if isinstance(v, AInt):
        v = w.store.norm(v)
        if isinstance(v, AInt):
            return mkstr([S.fmt_hole("str", v)])
    if isinstance(v, (bool, int, float)) or v is None:
        return str(v)
    if isinstance(v, AFloat):
        return mkstr([Hole("float", v.n, alphabet=frozenset("0123456789.-e+"), minlen=1)])
    return repr_(v)


def repr_(v):
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, AStr):
        return mkstr(["'", v, "'"])
    if isinstance(v, Inst):
        m = v.cls.lookup("__repr__")
        if m is not MISSING:
            return call(bind(m, v, v.cls), [], {})
        return default_str(v, "__repr__")
    if isinstance(v, (AInt, int, float, bool, AFloat)) or v is None:
        return str_(v)
    if isinstance(v, bytes):
        return repr(v)
    if isinstance(v, tuple):
        if len(v) == 1:
            return mkstr(["(", repr_(v[0]), ",)"])
        return mkstr(["("] + sep_join(", ", [repr_(x) for x in v]) + [")"])
    if isinstance(v, AList):
        return mkstr(["["] + sep_join(", ", [repr_(x) for x in v.v]) + ["]"])
    if isinstance(v, ADict):
        return mkstr(["{"] + sep_join(", ", [mkstr([repr_(k), ": ", repr_(x)]) for k, x in v.e.values()]) + ["}"])
    if isinstance(v, ASet):
        if not v.e:
            return "set()"
        return mkstr(["{"] + sep_join(", ", [repr_(x) for x in v.e.values()]) + ["}"])
    if isinstance(v, Cls):
        return "<class %r>" % v.name
    if isinstance(v, ABytes):
        return mkstr([Hole("repr", repr(v), minlen=3)])
    if isinstance(v, ARange):
        return mkstr(["range(", str_(v.start), ", ", str_(v.stop), ")"])
    return "<%s>" % tname(v)


def sep_join(sep, l):
    out = []
    for i, x in enumerate(l):
        if i:
            out.append(sep)
        out.append(x)
    return out


def int_(v):
    """int(v)"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, AInt)):
        return v
    if isinstance(v, float):
        return int(v)
    if isinstance(v, AFloat):
        n = node("trunc", v.n)
        return AInt(Poly.atom(n))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError as e:
            throw("ValueError", str(e))
    if isinstance(v, AStr):
        try:
            return S.parse_int(v, 10)
        except ValueError as e:
            throw("ValueError", str(e))
    if isinstance(v, Inst):
        for nm in ("__int__", "__index__", "__trunc__"):
            m = meth(v, nm)
            if m is not None:
                r = call(m, [], {})
                if isinstance(r, bool):
                    return int(r)
                if not isinstance(r, (int, AInt)):
                    throw("TypeError", "__int__ returned non-int (type %s)" % tname(r))
                return r
    if isinstance(v, Unk):
        raise Unsupported("int of %r" % (v,))
    throw("TypeError", "int() argument must be a string, a bytes-like object or a real number, not %r" % tname(v))


def number_for(v, what):
    """Operand of %d / %x."""
    if isinstance(v, (int, AInt)):
        return v
    if isinstance(v, (float, AFloat)):
        return int_(v)
    if isinstance(v, Inst):
        # %d uses __int__ (via PyNumber_Long for numbers) -- only __index__/__int__
        for nm in (("__int__", "__index__") if what in "diu" else ("__index__",)):
            m = meth(v, nm)
            if m is not None:
                r = call(m, [], {})
                if isinstance(r, (int, AInt)):
                    return r
    throw("TypeError", "%%%s format: a number is required, not %s" % (what, tname(v)))


import re as _re
_FMT = _re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\d+))?[hlL]?([diouxXeEfFgGcrsa%])")


def fmt_percent(f, arg):
    if isinstance(f, AStr):
        raise Unsupported("abstract format string")
    out = []
    pos = 0
    idx = 0
    mapping = isinstance(arg, ADict)
    args = arg if isinstance(arg, tuple) else (arg,)
    for m in _FMT.finditer(f):
        if "%" in f[pos:m.start()]:
            throw("ValueError", "unsupported format character")
        out.append(f[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            out.append("%")
            continue
        if key is not None:
            v = getitem(arg, key)
        else:
            if width == "*":
                width = str(w.concretize(args[idx]))
                idx += 1
            if idx >= len(args):
                throw("TypeError", "not enough arguments for format string")
            v = args[idx]
            idx += 1
        spec = "%" + flags + (width or "") + ("." + prec if prec else "") + conv
        if conv in "diuxXo":
            v = number_for(v, conv)
            v = w.store.norm(v)
            if isinstance(v, AInt):
                out.append(S.fmt_hole(spec, v))
            else:
                out.append(spec % v)
        elif conv in "sra":
            s = str_(v) if conv == "s" else repr_(v)
            if spec in ("%s", "%r", "%a"):
                out.append(s)
            elif isinstance(s, str):
                out.append(("%" + flags + (width or "") + ("." + prec if prec else "") + "s") % s)
            elif prec is None:
                wd = int(width or 0)
                out.append(S.method(s, "ljust" if "-" in flags else "rjust", [wd], {}))
            else:
                raise Unsupported("precision on an abstract string")
        elif conv == "c":
            raise Unsupported("%c")
        else:
            if isinstance(v, (int, float)):
                out.append(spec % v)
            else:
                raise Unsupported("float formatting")
    if "%" in f[pos:]:
        throw("ValueError", "incomplete format")
    out.append(f[pos:])
    if not mapping and idx < len(args) and not (len(args) == 1 and not isinstance(arg, tuple) and isinstance(arg, (Inst,)) and idx):
        throw("TypeError", "not all arguments converted during string formatting")
    return mkstr(out)


def format_value(v, spec):
    """format(v, spec)"""
    if isinstance(spec, AStr):
        raise Unsupported("abstract format spec")
    if isinstance(v, AInt):
        v = w.store.norm(v)
    if isinstance(v, Inst):
        m = v.cls.lookup("__format__")
        if m is not MISSING:
            return call(bind(m, v, v.cls), [spec], {})
        if spec == "":
            return str_(v)
        throw("TypeError", "unsupported format string passed to %s.__format__" % v.cls.name)
    if isinstance(v, (bool, int, float, str)) or v is None:
        try:
            return format(v, spec)
        except (ValueError, TypeError) as e:
            throw("ValueError", str(e))
    if isinstance(v, AInt):
        return mkstr([S.fmt_hole(spec, v)])
    if isinstance(v, AStr):
        if spec in ("", "s"):
            return v
        m = _re.fullmatch(r"(?:(.)?([<>]))?(\d+)s?", spec)
        if m:
            return S.method(v, "rjust" if m.group(2) == ">" else "ljust", [int(m.group(3)), m.group(1) or " "], {})
        raise Unsupported("format spec %r" % spec)
    if spec == "":
        return str_(v)
    throw("TypeError", "unsupported format string passed to %s.__format__" % tname(v))


def str_format(f, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if field is None:
            continue
        m = _re.match(r"^(\w*)((?:\.\w+|\[[^\]]+\])*)$", field)
        if not m:
            raise Unsupported("format field %r" % field)
        name, rest = m.groups()
        if name == "":
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            if name not in kw:
                throw("KeyError", name)
            v = kw[name]
        for r in _re.findall(r"\.\w+|\[[^\]]+\]", rest):
            if r[0] == ".":
                v = getattr_(v, r[1:])
            else:
                k = r[1:-1]
                v = getitem(v, int(k) if k.isdigit() else k)
        if spec and "{" in spec:
            spec = str_format(spec, args[auto:], kw)
        if conv == "s":
            v = str_(v)
        elif conv == "r":
            v = repr_(v)
        out.append(format_value(v, spec or ""))
    return mkstr(out)


from .compile import compile_module, compile_script      # noqa: E402  (mutual)


# -- modules -----------------------------------------------------------------------------

MODULES = {}
LIB = {}
SOURCES = {}


def find_source(name):
    parts = name.split(".")
    base = os.path.join(REPO, *parts)
    if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
        return os.path.join(base, "__init__.py"), True
    if os.path.exists(base + ".py"):
        return base + ".py", False
    return None, False


def import_module(name):
    m = try_import(name)
    if m is None:
        if name.split(".")[0] == "hrdc":
            throw("ModuleNotFoundError", "No module named %r" % name)
        if name.split(".")[0] not in sys.stdlib_module_names:
            raise Unsupported("import of %s" % name)
        # a library module without a model: any use of its names is undecided
        m = MODULES[name] = Mod(name, "<lib>")
        m.ns["__name__"] = name
        if "." in name:
            p = import_module(name.rpartition(".")[0])
            p.ns.setdefault(name.rpartition(".")[2], m)
    return m


def real_name(mod, name):
    """Whether the library module really has that name."""
    import importlib
    try:
        return hasattr(importlib.import_module(mod), name)
    except Exception:
        return True


def try_import(name):
    if name in MODULES:
        return MODULES[name]
    if name in LIB:
        mark = len(w.log)
        m = LIB[name]() if callable(LIB[name]) else LIB[name]
        del w.log[mark:]
        MODULES[name] = m
        return m
    if name.split(".")[0] != "hrdc":
        return None
    if "." in name:
        parent = import_module(name.rsplit(".", 1)[0])
        if name in MODULES:
            return MODULES[name]
    else:
        parent = None
    path, pkg = find_source(name)
    if path is None:
        return None
    m = Mod(name, path, pkg)
    m.ns["__name__"] = name
    m.ns["__file__"] = path
    m.ns["__package__"] = name if pkg else name.rpartition(".")[0]
    MODULES[name] = m
    src = open(path, encoding="utf-8").read()
    SOURCES[path] = src
    tree = ast.parse(src, path)
    code = compile_module(tree, m)
    saved = w_cur_mod[0]
    w_cur_mod[0] = m
    line = w.line
    mark = len(w.log)
    try:
        code(m)
        # a module stays imported, also beyond the partition that asked for it
        del w.log[mark:]
    except BaseException:
        MODULES.pop(name, None)
        raise
    finally:
        w_cur_mod[0] = saved
        w.line = line
    if parent is not None:
        w.touch(parent)
        parent.ns[name.rsplit(".", 1)[1]] = m
    return m


def resolve_relative(mod, level, module):
    pkg = mod.ns["__package__"].split(".")
    if level > 1:
        pkg = pkg[:len(pkg) - (level - 1)]
    return ".".join(pkg + ([module] if module else []))


from .builtins_ import BUILTINS, builtin_attr, builtin_method, call_btype, btype_attr   # noqa: E402
