"""Abstract semantics of builtins and of the library modules used."""
import collections as _collections
import itertools as _itertools
import math
import re as _re
import struct as _struct
import types as _types

from .num import (AInt, AFloat, Poly, Node, Sym, Infeasible, Unsupported, KLimit, INF, node)
from . import num
from .objs import *
from .world import w, PyExc, Diverges
from . import strings as S
from . import interp as I
from .interp import (TYPES, throw, call, truth, eq, iterate, iterate_list, getitem, setitem, getattr_, getattr_raw,
                     setattr_, dict_get, dict_set, dict_del, dict_find, set_add, set_find, mkset, mkdict, units,
                     arith, prim_cmp, str_, repr_, int_, len_, meth, Model, LazyIter, GenObj, type_of, tname,
                     is_instance, mk, compare, to_index)

BUILTINS = {}


def bi(name):
    def d(f):
        BUILTINS[name] = Builtin(name, f)
        return f
    return d


for _n, _t in TYPES.items():
    if "." not in _n and _n not in ("NoneType", "function", "module", "generator"):
        BUILTINS[_n] = _t
for _n in ("locals", "globals", "vars", "eval", "exec", "__import__"):
    BUILTINS[_n] = Builtin(_n, None)
BUILTINS["NotImplemented"] = NotImplemented
BUILTINS["Ellipsis"] = Ellipsis
BUILTINS["__debug__"] = True
BUILTINS["__name__"] = "builtins"


@bi("len")
def _(a, k):
    return len_(a[0])


@bi("repr")
def _(a, k):
    return repr_(a[0])


@bi("ascii")
def _(a, k):
    return repr_(a[0])


@bi("print")
def _(a, k):
    f = k.get("file")
    sep = k.get("sep")
    end = k.get("end")
    txt = mkstr(I.sep_join(" " if sep is None else sep, [str_(x) for x in a]) + ["\n" if end is None else end])
    if f is None:
        f = I.import_module("sys").ns["stdout"]
    call(getattr_(f, "write"), [txt], {})
    return None


@bi("isinstance")
def _(a, k):
    return is_instance(a[0], a[1])


@bi("issubclass")
def _(a, k):
    ts = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(t in a[0].mro for t in ts)


@bi("hasattr")
def _(a, k):
    return attr_or_missing(a[0], a[1]) is not MISSING


def attr_or_missing(o, n):
    try:
        return getattr_raw(o, n)
    except PyExc as e:
        if is_instance(e.value, TYPES["AttributeError"]):
            return MISSING
        raise


@bi("getattr")
def _(a, k):
    if isinstance(a[1], AStr):
        raise Unsupported("getattr with an abstract name")
    if len(a) > 2:
        v = attr_or_missing(a[0], a[1])
        return a[2] if v is MISSING else v
    return getattr_(a[0], a[1])


@bi("setattr")
def _(a, k):
    setattr_(a[0], a[1], a[2])


@bi("delattr")
def _(a, k):
    I.delattr_(a[0], a[1])


@bi("id")
def _(a, k):
    return I.ident_hash(a[0])


@bi("hash")
def _(a, k):
    return I.hash_(a[0])


@bi("callable")
def _(a, k):
    v = a[0]
    if isinstance(v, (Func, BoundMethod, Builtin, BMethod, Cls)):
        return True
    return meth(v, "__call__") is not None


@bi("abs")
def _(a, k):
    v = a[0]
    if isinstance(v, AInt):
        if truth(prim_cmp(v, 0, "__lt__")):
            return I.unary("-", v)
        return w.store.norm(v)
    if isinstance(v, Inst):
        m = meth(v, "__abs__")
        if m is None:
            throw("TypeError", "bad operand type for abs()")
        return call(m, [], {})
    return abs(v)


@bi("divmod")
def _(a, k):
    return (arith("//", a[0], a[1]), arith("%", a[0], a[1]))


@bi("pow")
def _(a, k):
    if len(a) == 3:
        raise Unsupported("3-argument pow")
    return arith("**", a[0], a[1])


@bi("round")
def _(a, k):
    if isinstance(a[0], (int, AInt)):
        return a[0]
    if isinstance(a[0], float):
        return round(*a)
    return AInt(Poly.atom(node("round", a[0].n)))


def _minmax(a, k, op):
    items = iterate_list(a[0]) if len(a) == 1 else a
    if not items:
        if "default" in k:
            return k["default"]
        throw("ValueError", "arg is an empty sequence")
    key = k.get("key")
    best = items[0]
    bk = call(key, [best], {}) if key is not None else best
    for x in items[1:]:
        xk = call(key, [x], {}) if key is not None else x
        if truth(compare(op, xk, bk)):
            best, bk = x, xk
    return best


BUILTINS["min"] = Builtin("min", lambda a, k: _minmax(a, k, "__lt__"))
BUILTINS["max"] = Builtin("max", lambda a, k: _minmax(a, k, "__gt__"))


@bi("sum")
def _(a, k):
    s = a[1] if len(a) > 1 else k.get("start", 0)
    for x in iterate(a[0]):
        s = arith("+", s, x)
    return s


@bi("any")
def _(a, k):
    for x in iterate(a[0]):
        if truth(x):
            return True
    return False


@bi("all")
def _(a, k):
    for x in iterate(a[0]):
        if not truth(x):
            return False
    return True


def merge_sort(items, less):
    n = len(items)
    if n <= 1:
        return items
    out = []
    for x in items:                     # stable binary insertion
        lo, hi = 0, len(out)
        while lo < hi:
            m = (lo + hi) // 2
            if less(x, out[m]):
                hi = m
            else:
                lo = m + 1
        out.insert(lo, x)
    return out


def sort_list(items, k):
    key = k.get("key")
    rev = truth(k.get("reverse", False))
    pairs = [(call(key, [x], {}) if key is not None else x, x) for x in items]
    if rev:
        pairs = pairs[::-1]
    r = merge_sort(pairs, lambda p, q: truth(compare("__lt__", p[0], q[0])))
    if rev:
        r = r[::-1]
    return [x for _, x in r]


@bi("sorted")
def _(a, k):
    return AList(sort_list(iterate_list(a[0]), k))


@bi("iter")
def _(a, k):
    if len(a) == 2:
        def gen():
            n = 0
            while True:
                v = call(a[0], [], {})
                if eq(v, a[1]):
                    return
                yield v
                n += 1
                if n > 100000:
                    raise Diverges("iter(callable)")
        return LazyIter(gen())
    return I.iter_(a[0])


@bi("next")
def _(a, k):
    return I.next_(a[0], a[1] if len(a) > 1 else MISSING)


@bi("hex")
def _(a, k):
    v = to_index(a[0])
    if isinstance(v, AInt):
        return mkstr([S.fmt_hole("hex()", v)])
    return hex(v)


@bi("bin")
def _(a, k):
    v = to_index(a[0])
    if isinstance(v, AInt):
        if truth(prim_cmp(v, 0, "__lt__")):
            return mkstr(["-0b", S.fmt_hole("b", arith("-", 0, v))])
        return mkstr(["0b", S.fmt_hole("b", v)])
    return bin(v)


@bi("oct")
def _(a, k):
    v = to_index(a[0])
    if isinstance(v, AInt):
        if truth(prim_cmp(v, 0, "__lt__")):
            return mkstr(["-0o", S.fmt_hole("o", arith("-", 0, v))])
        return mkstr(["0o", S.fmt_hole("o", v)])
    return oct(v)


@bi("chr")
def _(a, k):
    return chr(w.concretize(to_index(a[0])))


@bi("ord")
def _(a, k):
    if isinstance(a[0], (bytes, ABytes)):
        return units(a[0])[0]
    if isinstance(a[0], AStr):
        raise Unsupported("ord of abstract char")
    return ord(a[0])


@bi("format")
def _(a, k):
    return I.format_value(a[0], a[1] if len(a) > 1 else "")


@bi("dir")
def _(a, k):
    o = a[0]
    if isinstance(o, Mod):
        return AList(sorted(o.ns))
    if isinstance(o, Cls):
        return AList(sorted({k for c in o.mro for k in c.ns}))
    if isinstance(o, Inst):
        return AList(sorted({k for c in o.cls.mro for k in c.ns} | set(o.d)))
    raise Unsupported("dir")


@bi("input")
def _(a, k):
    raise Unsupported("input")


@bi("open")
def _(a, k):
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    return OPEN[0](a[0], mode)


OPEN = [lambda name, mode: _no_open(name)]


def _no_open(name):
    raise Unsupported("open(%r)" % (name,))


# -- calls of builtin types ----------------------------------------------------------------

def call_btype(t, a, k):
    n = t.name
    f = CTOR.get(n)
    if f is not None:
        return f(a, k)
    if I.T_BaseException in t.mro:
        e = Inst(t)
        e.d["args"] = tuple(a)
        if n == "SystemExit":
            e.d["code"] = a[0] if a else None
        if n == "StopIteration":
            e.d["value"] = a[0] if a else None
        return e
    raise Unsupported("call of %s" % n)


def c_int(a, k):
    if not a:
        return 0
    if len(a) > 1 or "base" in k:
        base = a[1] if len(a) > 1 else k["base"]
        s = a[0]
        if not isinstance(s, (str, AStr, bytes)):
            throw("TypeError", "int() can't convert non-string with explicit base")
        try:
            if isinstance(s, AStr):
                return S.parse_int(s, base)
            return int(s, base)
        except ValueError as e:
            throw("ValueError", str(e))
    return int_(a[0])


def c_str(a, k):
    if not a:
        return ""
    if len(a) > 1 or "encoding" in k:
        if isinstance(a[0], bytes):
            return str(a[0], *a[1:])
        raise Unsupported("str(bytes, encoding)")
    return str_(a[0])


def check_byte(v):
    v = to_index(v)
    if isinstance(v, AInt):
        if truth(prim_cmp(v, 0, "__lt__")) or truth(prim_cmp(v, 255, "__gt__")):
            throw("ValueError", "bytes must be in range(0, 256)")
        return w.store.norm(v)
    if not 0 <= v <= 255:
        throw("ValueError", "bytes must be in range(0, 256)")
    return v


def c_bytes(a, k):
    if not a:
        return b""
    v = a[0]
    if isinstance(v, (bytes, ABytes)):
        return v
    if isinstance(v, str):
        if len(a) > 1:
            return v.encode(a[1])
        throw("TypeError", "string argument without an encoding")
    if isinstance(v, (int, AInt)) and not isinstance(v, bool):
        n = w.concretize(v)
        if n < 0:
            throw("ValueError", "negative count")
        return bytes(n)
    m = meth(v, "__bytes__")
    if m is not None:
        return call(m, [], {})
    return mkbytes([check_byte(x) for x in iterate(v)])


def c_bytearray(a, k):
    b = c_bytes(a, k)
    return AList(units(b), "bytearray")


def c_float(a, k):
    v = a[0] if a else 0.0
    if isinstance(v, AInt):
        return AFloat(node("float", w.store.poly(v)))
    if isinstance(v, (int, float, str)):
        return float(v)
    if isinstance(v, AFloat):
        return v
    raise Unsupported("float()")


def c_dict(a, k):
    d = ADict()
    if a:
        src = a[0]
        if isinstance(src, ADict):
            d.e = dict(src.e)
            d.absk = src.absk
        elif meth(src, "keys") is not None or (isinstance(src, Inst) and getattr_raw(src, "keys") is not MISSING):
            for kk in iterate_list(call(getattr_(src, "keys"), [], {})):
                dict_set(d, kk, getitem(src, kk))
        else:
            for p in iterate(src):
                kv = iterate_list(p)
                if len(kv) != 2:
                    throw("ValueError", "dictionary update sequence element")
                dict_set(d, kv[0], kv[1])
    for kk, v in k.items():
        dict_set(d, kk, v)
    return d


def c_range(a, k):
    a = [w.store.norm(to_index(x)) for x in a]
    if len(a) == 1:
        return ARange(0, a[0], 1)
    if len(a) == 2:
        return ARange(a[0], a[1], 1)
    if a[2] == 0:
        throw("ValueError", "range() arg 3 must not be zero")
    return ARange(a[0], a[1], a[2])


def c_type(a, k):
    if len(a) == 1:
        return type_of(a[0])
    ns = {kk: v for kk, v in a[2].e.values()}
    return I.make_class(a[0], list(a[1]), ns, None, I.w_cur_mod[0], None, k)


def c_zip(a, k):
    strict = truth(k.get("strict", False))

    def gen():
        its = [iterate(x) for x in a]
        if not its:
            return
        while True:
            row = []
            for i, it in enumerate(its):
                try:
                    row.append(next(it))
                except StopIteration:
                    if strict:
                        if i > 0:
                            throw("ValueError", "zip() argument is shorter")
                        for j in its[1:]:
                            for _ in j:
                                throw("ValueError", "zip() argument is longer")
                    return
            yield tuple(row)
    return LazyIter(gen())


def c_map(a, k):
    def gen():
        its = [iterate(x) for x in a[1:]]
        while True:
            row = []
            for it in its:
                try:
                    row.append(next(it))
                except StopIteration:
                    return
            yield call(a[0], row, {})
    return LazyIter(gen())


def c_filter(a, k):
    def gen():
        for x in iterate(a[1]):
            if truth(x if a[0] is None else call(a[0], [x], {})):
                yield x
    return LazyIter(gen())


def c_enumerate(a, k):
    def gen():
        i = a[1] if len(a) > 1 else k.get("start", 0)
        for x in iterate(a[0]):
            yield (i, x)
            i = arith("+", i, 1)
    return LazyIter(gen())


def c_reversed(a, k):
    v = a[0]
    m = meth(v, "__reversed__")
    if m is not None:
        return call(m, [], {})
    if isinstance(v, (AList, tuple, str, bytes, ABytes, ARange, ADict)):
        return LazyIter(iter(iterate_list(v)[::-1]))
    if meth(v, "__getitem__") is not None and meth(v, "__len__") is not None:
        n = len_(v)
        return LazyIter(getitem(v, i) for i in range(n - 1, -1, -1))
    throw("TypeError", "object is not reversible")


def c_property(a, k):
    return Property(*(a + [None] * (3 - len(a)))[:3]) if not k else Property(k.get("fget", a[0] if a else None), k.get("fset"),
                                                                              k.get("fdel"))


CTOR = {
    "int": c_int, "str": c_str, "bytes": c_bytes, "bytearray": c_bytearray, "float": c_float,
    "memoryview": lambda a, k: a[0] if isinstance(a[0], (bytes, ABytes)) else mkbytes(a[0].v),
    "bool": lambda a, k: truth(a[0]) if a else False,
    "list": lambda a, k: AList(iterate_list(a[0]) if a else []),
    "tuple": lambda a, k: tuple(iterate_list(a[0])) if a else (),
    "set": lambda a, k: mkset(iterate_list(a[0]) if a else []),
    "frozenset": lambda a, k: mkset(iterate_list(a[0]) if a else [], True),
    "dict": c_dict, "range": c_range, "type": c_type,
    "slice": lambda a, k: ASlice(None, a[0], None) if len(a) == 1 else ASlice(*(a + [None])[:3]),
    "object": lambda a, k: Inst(I.T_object),
    "zip": c_zip, "map": c_map, "filter": c_filter, "enumerate": c_enumerate, "reversed": c_reversed,
    "property": c_property, "classmethod": lambda a, k: ClassMethod(a[0]), "staticmethod": lambda a, k: StaticMethod(a[0]),
    "super": lambda a, k: SuperObj(a[0], a[1]),
}


def btype_attr(t, name):
    """Attribute of a builtin type object (unbound methods, constructors)."""
    b = next((c for c in t.mro if isinstance(c, BType) and c is not I.T_object), None)
    n = b.name if b is not None else t.name
    if n == "int" and name == "from_bytes":
        return Builtin("int.from_bytes", lambda a, k: from_bytes(a, k))
    if n == "bytes" and name == "fromhex":
        return Builtin("bytes.fromhex", lambda a, k: fromhex(a[0]))
    if n == "bytearray" and name == "fromhex":
        return Builtin("bytearray.fromhex", lambda a, k: AList(units(fromhex(a[0])), "bytearray"))
    if n == "dict" and name == "fromkeys":
        return Builtin("dict.fromkeys", lambda a, k: mkdict([(x, a[1] if len(a) > 1 else None) for x in iterate_list(a[0])]))
    if n == "str" and name == "maketrans":
        raise Unsupported("str.maketrans")
    if n in METHS and name in METHS[n] or (n in ("str", "int", "bytes", "float", "tuple") and hasattr(b.host, name)):
        return Builtin("%s.%s" % (n, name), lambda a, k: builtin_method(a[0], name, list(a[1:]), k))
    return MISSING


def from_bytes(a, k):
    b = units(a[0]) if isinstance(a[0], (bytes, ABytes)) else [check_byte(x) for x in iterate(a[0])]
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    signed = truth(k.get("signed", False))
    return compose(b if order == "little" else b[::-1], signed)


def compose(b, signed):
    """Little-endian byte units -> int."""
    if all(isinstance(x, int) for x in b):
        return int.from_bytes(bytes(b), "little", signed=signed)
    p = recompose(b, signed)
    if p is not None:
        return mk(p)
    acc = Poly.const(0)
    for i, x in enumerate(b):
        acc = acc.add(w.store.poly(x).scale(1 << (8 * i)))
    if signed and b:
        v = mk(acc)
        n = 8 * len(b)
        if truth(prim_cmp(b[-1], 128, "__ge__")):
            return arith("-", w.store.norm(v) if isinstance(v, AInt) else v, 1 << n)
        return v
    return mk(acc)


def recompose(b, signed):
    """byte(p,0)..byte(p,n-1) with p in the range of an n-byte int == p."""
    n = len(b)
    st = w.store
    src = None
    for i, x in enumerate(b):
        if not isinstance(x, AInt):
            continue
        at = list(x.p.t.items())
        if len(at) == 1 and at[0][1] == 1 and len(at[0][0]) == 1:
            a = at[0][0][0]
            if isinstance(a, Node) and a.op == "byte" and a.args[1] == i:
                src = a.args[0]
                break
    if src is None:
        return None
    for i, x in enumerate(b):
        if st.poly(x) != st.simp(num.b_byte(st, st.simp(src), i)) and st.poly(x) != st.simp(Poly.atom(num.node("byte", src, i))):
            return None
    if src is None:
        return None
    lo, hi = st.interval(st.simp(src))
    if signed and -(1 << (8 * n - 1)) <= lo and hi < 1 << (8 * n - 1):
        return src
    if not signed and 0 <= lo and hi < 1 << (8 * n):
        return src
    if signed and 0 <= lo and hi < 1 << (8 * n):
        # reinterpretation
        if truth(prim_cmp(AInt(src), 1 << (8 * n - 1), "__ge__")):
            return src.add(Poly.const(-(1 << (8 * n))))
        return src
    if not signed and -(1 << (8 * n - 1)) <= lo and hi < 1 << (8 * n - 1):
        if truth(prim_cmp(AInt(src), 0, "__lt__")):
            return src.add(Poly.const(1 << (8 * n)))
        return src
    return None


def byte_units(v, n):
    """Little-endian two's complement byte units of abstract v in n bytes."""
    p = w.store.poly(v)
    if p.is_const():
        return list((p.cval() & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))
    # an exact composition of bytes decomposes to the same bytes
    dec = decompose(p, n)
    if dec is not None:
        return dec
    return [mk(num.b_byte(w.store, p, i)) for i in range(n)]


def decompose(p, n):
    st = w.store
    slots = [Poly({}) for _ in range(n)]
    for m, c in p.t.items():
        if not m:
            if c < 0:
                return None
            for i in range(n):
                slots[i] = slots[i].add(Poly.const((c >> (8 * i)) & 0xff))
            if c >> (8 * n):
                return None
            continue
        if c <= 0:
            return None
        k = (c & -c).bit_length() - 1
        i = k // 8
        if i >= n:
            return None
        slots[i] = slots[i].add(Poly({m: c >> (8 * i)}))
    for s in slots:
        lo, hi = st.interval(s)
        if not (0 <= lo and hi <= 255):
            return None
    return [mk(s) for s in slots]


def to_bytes(v, n, order, signed):
    n = w.concretize(n)
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if n == 0:
        lo = hi = 0
    if truth(prim_cmp(v, lo, "__lt__")) or truth(prim_cmp(v, hi, "__gt__")):
        throw("OverflowError", "int too big to convert")
    b = byte_units(w.store.norm(v), n)
    return mkbytes(b if order == "little" else b[::-1])


def fromhex(s):
    if isinstance(s, str):
        try:
            return bytes.fromhex(s)
        except ValueError as e:
            throw("ValueError", str(e))
    s = S.renorm(s)
    if isinstance(s, str):
        return fromhex(s)
    out = []
    for p in s.parts:
        if isinstance(p, str):
            try:
                out.extend(bytes.fromhex(p))
            except ValueError as e:
                throw("ValueError", str(e))
        elif p.kind == "fmt" and _re.fullmatch(r"%02[xX]", p.key[0]) and p.minlen == p.maxlen == 2:
            out.append(mk(w.store.simp(p.key[1])))
        else:
            raise Unsupported("bytes.fromhex of %r" % (s,))
    return mkbytes(out)


# -- methods of builtin values -----------------------------------------------------------------

METHS = {
    "list": {"append", "extend", "insert", "pop", "remove", "index", "count", "sort", "reverse", "clear", "copy",
             "popleft", "appendleft", "extendleft", "rotate", "__len__", "__iter__", "__getitem__", "__contains__",
             "__add__", "__eq__", "hex", "decode", "startswith", "__setitem__"},
    "dict": {"get", "items", "keys", "values", "pop", "setdefault", "update", "clear", "copy", "popitem", "__contains__",
             "__getitem__", "__setitem__", "__len__", "__iter__", "move_to_end", "fromkeys"},
    "set": {"add", "discard", "remove", "update", "union", "intersection", "difference", "clear", "copy", "pop",
            "issubset", "issuperset", "isdisjoint", "symmetric_difference", "__contains__", "__len__", "__iter__"},
    "tuple": {"index", "count", "__len__", "__iter__", "__getitem__", "__contains__"},
    "range": {"index", "count", "__len__", "__iter__", "__contains__", "__getitem__"},
}
METHS["frozenset"] = METHS["set"]
METHS["bytearray"] = METHS["list"]


def unmodelled(real, name):
    """A name that the value has for real, of which there is no model, leaves the path undecided."""
    if hasattr(real, name):
        raise Unsupported("attribute %s of a %s" % (name, real.__name__))
    return MISSING


ZERO = Builtin("zero", lambda a, k: 0)


def most_common(o, n=None):
    l = [(k, v) for k, v in o.e.values()]
    l = sort_list(l, {"key": Builtin("count", lambda a, k: a[0][1]), "reverse": True})
    return AList(l if n is None else l[:n])


def builtin_attr(o, name):
    if isinstance(o, (str, AStr)):
        if name in ("__class__",):
            return I.T_str
        return BMethod(o, name) if hasattr("", name) else MISSING
    if isinstance(o, bool):
        if name in ("real", "numerator"):
            return int(o)
        return BMethod(o, name) if hasattr(True, name) else MISSING
    if isinstance(o, (int, AInt)):
        if name in ("real", "numerator"):
            return o
        if name == "imag":
            return 0
        if name == "__class__":
            return I.T_int
        return BMethod(o, name) if hasattr(1, name) else MISSING
    if isinstance(o, (bytes, ABytes)):
        if name in ("tobytes", "release", "toreadonly"):       # of a memoryview, which is modelled as the bytes it shows
            return Builtin(name, lambda a, k: None if name == "release" else o)
        return BMethod(o, name) if hasattr(b"", name) else unmodelled(memoryview, name)
    if isinstance(o, AList):
        if name == "maxlen" and o.kind == "deque":
            return o.maxlen
        real = {"bytearray": bytearray, "deque": _collections.deque}.get(o.kind, list)
        if not hasattr(real, name):
            return MISSING
        return BMethod(o, name) if name in METHS["list"] else unmodelled(real, name)
    if isinstance(o, ADict):
        if name == "default_factory":
            return o.default
        if name == "most_common" and o.default is ZERO:
            return Builtin(name, lambda a, k: most_common(o, *a))
        if name == "elements" and o.default is ZERO:
            return unmodelled(dict, name)
        return BMethod(o, name) if name in METHS["dict"] else unmodelled(dict, name)
    if isinstance(o, ASet):
        return BMethod(o, name) if name in METHS["set"] else unmodelled(set, name)
    if isinstance(o, tuple):
        return BMethod(o, name) if name in METHS["tuple"] else unmodelled(tuple, name)
    if isinstance(o, ARange):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        return BMethod(o, name) if name in METHS["range"] else unmodelled(range, name)
    if isinstance(o, (float, AFloat)):
        return BMethod(o, name) if hasattr(1.0, name) else MISSING
    if isinstance(o, (GenObj, LazyIter, AIter)):
        if name in ("__next__", "__iter__", "close", "send"):
            return BMethod(o, name)
        return unmodelled(_types.GeneratorType, name)
    if o is None:
        if name == "__class__":
            return I.T_none
        return unmodelled(type(None), name)
    if isinstance(o, ASlice):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
    return MISSING


def builtin_method(o, name, a, k):
    if isinstance(o, (str, AStr)):
        return str_method(o, name, a, k)
    if isinstance(o, (int, AInt)):
        return int_method(o, name, a, k)
    if isinstance(o, (bytes, ABytes)):
        return bytes_method(o, name, a, k)
    if isinstance(o, AList):
        return list_method(o, name, a, k)
    if isinstance(o, ADict):
        return dict_method(o, name, a, k)
    if isinstance(o, ASet):
        return set_method(o, name, a, k)
    if isinstance(o, (tuple, ARange)):
        return tuple_method(o, name, a, k)
    if isinstance(o, (GenObj, LazyIter, AIter)):
        if name == "__next__":
            return I.next_(o)
        if name == "__iter__":
            return o
        if name == "close":
            if not isinstance(o, AIter):
                I.CLOSING[0] += 1
                try:
                    o.host.close()
                finally:
                    I.CLOSING[0] -= 1
            return None
        if name == "send":
            try:
                return o.host.send(a[0])
            except StopIteration:
                throw("StopIteration")
    if isinstance(o, float):
        return getattr(o, name)(*a)
    raise Unsupported("method %s of %r" % (name, o))


def str_method(o, name, a, k):
    if isinstance(o, AStr):
        o = S.renorm(o)
    if name == "join":
        items = iterate_list(a[0])
        for x in items:
            if not isinstance(x, (str, AStr)):
                throw("TypeError", "sequence item: expected str instance, %s found" % tname(x))
        return mkstr(I.sep_join(o, items))
    if name == "format":
        if isinstance(o, AStr):
            raise Unsupported("abstract format string")
        return I.str_format(o, a, k)
    if name in ("__len__",):
        return len_(o)
    if name == "__contains__":
        return S.contains(a[0], o)
    if name in ("__eq__",):
        return eq(o, a[0])
    if name == "__mod__":
        return I.fmt_percent(o, a[0])
    if name == "__add__":
        return arith("+", o, a[0])
    if name == "__iter__":
        return LazyIter(iterate(o))
    if name == "__getitem__":
        return getitem(o, a[0])
    a = [w.concretize(x) if isinstance(x, AInt) else x for x in a]
    for x in a:
        if not isinstance(x, (str, AStr, int, type(None), tuple)):
            if isinstance(x, ADict) and name == "translate":
                raise Unsupported("translate")
            throw("TypeError", "bad argument type for str.%s: %s" % (name, tname(x)))
    try:
        r = S.method(o, name, a, k)
    except (ValueError, TypeError, LookupError) as e:
        throw(type(e).__name__, str(e))
    if isinstance(r, list):
        return AList(list(r))
    return r


def int_method(o, name, a, k):
    if name == "bit_length":
        o = w.store.norm(o)
        if isinstance(o, AInt):
            return mk(num.b_bitlen(w.store, w.store.poly(o)))
        return int(o).bit_length()
    if name == "to_bytes":
        n = a[0] if a else k.get("length", 1)
        order = a[1] if len(a) > 1 else k.get("byteorder", "big")
        return to_bytes(o, n, order, truth(k.get("signed", False)))
    if name in ("__int__", "__index__", "conjugate", "__trunc__"):
        return o
    for op, (m, r) in I.BIN.items():
        if name == m:
            return arith(op, o, a[0])
        if name == r:
            return arith(op, a[0], o)
    if name in I.REFL:
        return prim_cmp(o, a[0], name)
    if name == "__hash__":
        return I.hash_(o)
    if name == "__bool__":
        return truth(o)
    if name == "__neg__":
        return I.unary("-", o)
    if name == "__invert__":
        return I.unary("~", o)
    if name in ("__str__", "__repr__"):
        return str_(o)
    if name == "bit_count":
        o = w.store.norm(o)
        if isinstance(o, int):
            return o.bit_count()
    raise Unsupported("int.%s" % name)


def bytes_method(o, name, a, k):
    if name == "hex":
        sep = a[0] if a else k.get("sep", "")
        if len(a) > 1 or "bytes_per_sep" in k:
            raise Unsupported("bytes.hex in groups")
        return mkstr(I.sep_join(sep, [mkstr([S.fmt_hole("%02x", x)]) if isinstance(x, AInt) else "%02x" % x for x in units(o)]))
    if name == "join":
        out = []
        for i, x in enumerate(iterate_list(a[0])):
            if i:
                out += units(o)
            if isinstance(x, AList) and x.kind == "bytearray":
                out += x.v
            elif isinstance(x, (bytes, ABytes)):
                out += units(x)
            else:
                throw("TypeError", "sequence item: expected a bytes-like object")
        return mkbytes(out)
    if name in ("__len__",):
        return len_(o)
    if name == "__iter__":
        return LazyIter(iterate(o))
    if isinstance(o, bytes) and all(isinstance(x, (bytes, int, str)) for x in a):
        try:
            r = getattr(o, name)(*a, **k)
        except UnicodeDecodeError:
            throw("UnicodeDecodeError", "cannot decode")
        except (ValueError, TypeError) as e:
            throw(type(e).__name__, str(e))
        return AList(r) if isinstance(r, list) else r
    if name in ("startswith", "endswith") and isinstance(a[0], bytes):
        u = units(o)
        x = list(a[0])
        if len(x) > len(u):
            return False
        part = u[:len(x)] if name == "startswith" else u[len(u) - len(x):]
        return all(eq(p, q) for p, q in zip(part, x))
    u = list(units(o))
    if name in ("ljust", "rjust", "center") and isinstance(a[0], int):
        fill = units(a[1])[0] if len(a) > 1 else 32
        n = max(0, a[0] - len(u))
        if name == "ljust":
            return mkbytes(u + [fill] * n)
        if name == "rjust":
            return mkbytes([fill] * n + u)
    if name in ("strip", "lstrip", "rstrip"):
        cs = list(units(a[0])) if a and a[0] is not None else [9, 10, 11, 12, 13, 32]
        if name != "rstrip":
            while u and any(eq(u[0], c) for c in cs):
                del u[0]
        if name != "lstrip":
            while u and any(eq(u[-1], c) for c in cs):
                del u[-1]
        return mkbytes(u)
    if name in ("find", "index", "count", "__contains__"):
        x = [a[0]] if isinstance(a[0], (int, AInt)) else list(units(a[0]))
        lo, hi, _ = slice(*((a[1:3] + [None, None])[:2])).indices(len(u)) if all(y is None or isinstance(y, int) for y in a[1:3]) else (None,) * 3
        if lo is not None and x:
            hits, i = 0, lo
            while i + len(x) <= hi:
                if all(eq(p, q) for p, q in zip(u[i:i + len(x)], x)):
                    if name in ("find", "index"):
                        return i
                    hits += 1
                    i += len(x)
                else:
                    i += 1
            if name == "index":
                throw("ValueError", "subsection not found")
            return -1 if name == "find" else hits if name == "count" else hits > 0
    if name in ("removeprefix", "removesuffix"):
        x = list(units(a[0]))
        if x and len(x) <= len(u):
            part = u[:len(x)] if name == "removeprefix" else u[-len(x):]
            if all(eq(p, q) for p, q in zip(part, x)):
                u = u[len(x):] if name == "removeprefix" else u[:-len(x)]
        return mkbytes(u)
    raise Unsupported("bytes.%s" % name)


def list_method(o, name, a, k):
    if name == "append":
        v = check_byte(a[0]) if o.kind == "bytearray" else a[0]
        w.touch(o)
        o.v.append(v)
        I.trim(o)
        return None
    if name == "extend":
        items = iterate_list(a[0])
        if o.kind == "bytearray":
            items = [check_byte(x) for x in items]
        w.touch(o)
        o.v.extend(items)
        I.trim(o)
        return None
    if name == "insert":
        i = w.concretize(to_index(a[0]))
        w.touch(o)
        o.v.insert(i, a[1])
        return None
    if name in ("pop", "popleft"):
        if not o.v:
            throw("IndexError", "pop from empty list")
        i = I.seq_index(o.v, a[0] if a else (-1 if name == "pop" else 0), "pop")
        w.touch(o)
        return o.v.pop(i)
    if name == "appendleft":
        w.touch(o)
        o.v.insert(0, a[0])
        I.trim(o, False)
        return None
    if name == "extendleft":
        items = iterate_list(a[0])
        w.touch(o)
        o.v[0:0] = items[::-1]
        I.trim(o, False)
        return None
    if name == "rotate":
        n = a[0] if a else 1
        w.touch(o)
        if o.v:
            n %= len(o.v)
            o.v[:] = o.v[-n:] + o.v[:-n]
        return None
    if name == "remove":
        for i, x in enumerate(o.v):
            if x is a[0] or eq(x, a[0]):
                w.touch(o)
                del o.v[i]
                return None
        throw("ValueError", "list.remove(x): x not in list")
    if name == "index":
        for i, x in enumerate(o.v):
            if x is a[0] or eq(x, a[0]):
                return i
        throw("ValueError", "not in list")
    if name == "count":
        return sum(1 for x in o.v if x is a[0] or eq(x, a[0]))
    if name == "sort":
        r = sort_list(list(o.v), k)
        w.touch(o)
        o.v[:] = r
        return None
    if name == "reverse":
        w.touch(o)
        o.v.reverse()
        return None
    if name == "clear":
        w.touch(o)
        o.v.clear()
        return None
    if name == "copy":
        return AList(list(o.v), o.kind)
    if name == "__len__":
        return len(o.v)
    if name == "__iter__":
        return LazyIter(iterate(o))
    if name == "__getitem__":
        return getitem(o, a[0])
    if name == "__setitem__":
        return setitem(o, a[0], a[1])
    if name == "__contains__":
        return I.contains(o, a[0])
    if name == "__add__":
        return arith("+", o, a[0])
    if name == "__eq__":
        return eq(o, a[0])
    if o.kind == "bytearray":
        return bytes_method(mkbytes(o.v), name, a, k)
    raise Unsupported("list.%s" % name)


def dict_method(o, name, a, k):
    if name == "get":
        v = dict_get(o, a[0])
        if v is MISSING:
            return a[1] if len(a) > 1 else k.get("default")
        return v
    if name == "items":
        return LiveView(o, "items")
    if name == "keys":
        return LiveView(o, "keys")
    if name == "values":
        return LiveView(o, "values")
    if name == "pop":
        v = dict_get(o, a[0])
        if v is MISSING:
            if len(a) > 1:
                return a[1]
            throw("KeyError", a[0])
        dict_del(o, a[0])
        return v
    if name == "popitem":
        if not o.e:
            throw("KeyError", "popitem(): dictionary is empty")
        last = truth(k.get("last", a[0] if a else True))
        c = list(o.e)[-1 if last else 0]
        w.touch(o)
        return o.e.pop(c)
    if name == "setdefault":
        v = dict_get(o, a[0])
        if v is MISSING:
            v = a[1] if len(a) > 1 else None
            dict_set(o, a[0], v)
        return v
    if name == "update":
        if a:
            src = c_dict([a[0]], {})
            for kk, v in list(src.e.values()):
                dict_set(o, kk, v)
        for kk, v in k.items():
            dict_set(o, kk, v)
        return None
    if name == "clear":
        w.touch(o)
        o.e.clear()
        return None
    if name == "copy":
        d = ADict()
        d.e = dict(o.e)
        d.absk = o.absk
        d.default = o.default if not isinstance(o.default, tuple) else None
        return d
    if name == "__contains__":
        return I.contains(o, a[0])
    if name == "__getitem__":
        return getitem(o, a[0])
    if name == "__setitem__":
        return dict_set(o, a[0], a[1])
    if name == "__len__":
        return len(o.e)
    if name == "__iter__":
        return LazyIter(iterate(o))
    if name == "move_to_end":
        c = dict_find(o, a[0])
        if c is MISSING:
            throw("KeyError", a[0])
        w.touch(o)
        x = o.e.pop(c)
        o.e[c] = x
        return None
    raise Unsupported("dict.%s" % name)


def LiveView(d, what):
    return Model("dictview", {}, (d, what))


def _view_iter(m):
    d, what = m.h
    n = len(d.e)
    for kk, v in list(d.e.values()):
        yield kk if what == "keys" else v if what == "values" else (kk, v)
        if len(d.e) != n:
            throw("RuntimeError", "dictionary changed size during iteration")


I.MODEL_ITER["dictview"] = _view_iter


def _view_attr(m, name):
    d, what = m.h
    if name == "__len__":
        return Builtin("len", lambda a, k: len(d.e))
    if name == "__contains__":
        return Builtin("contains", lambda a, k: (I.contains(d, a[0]) if what == "keys" else any(eq(x, a[0]) for x in _view_iter(m))))
    if name == "__iter__":
        return Builtin("iter", lambda a, k: LazyIter(_view_iter(m)))
    return unmodelled(type({}.keys()), name)


I.MODEL_ATTR["dictview"] = _view_attr


def view_set(m):
    """A view as the set it stands for in comparisons and set operations."""
    if isinstance(m, Model) and m.kind == "dictview":
        if m.h[1] == "values":
            return m
        return mkset(list(_view_iter(m)))
    return m


I.VIEW_SET = view_set


def set_method(o, name, a, k):
    if name == "add":
        set_add(o, a[0])
        return None
    if name in ("discard", "remove"):
        c = set_find(o, a[0])
        if c is MISSING:
            if name == "remove":
                throw("KeyError", a[0])
            return None
        w.touch(o)
        del o.e[c]
        return None
    if name in ("update", "union"):
        t = o if name == "update" else mkset(list(o.e.values()))
        for x in a:
            for y in iterate_list(x):
                set_add(t, y)
        return None if name == "update" else t
    if name in ("intersection", "difference", "symmetric_difference"):
        b = mkset([y for x in a for y in iterate_list(x)])
        return arith({"intersection": "&", "difference": "-", "symmetric_difference": "^"}[name], mkset(list(o.e.values())), b)
    if name == "clear":
        w.touch(o)
        o.e.clear()
        return None
    if name == "copy":
        return mkset(list(o.e.values()))
    if name == "pop":
        if not o.e:
            throw("KeyError", "pop from an empty set")
        w.touch(o)
        return o.e.pop(next(iter(o.e)))
    if name in ("issubset", "issuperset", "isdisjoint"):
        b = mkset(iterate_list(a[0]))
        if name == "issubset":
            return all(set_find(b, x) is not MISSING for x in o.e.values())
        if name == "issuperset":
            return all(set_find(o, x) is not MISSING for x in b.e.values())
        return all(set_find(b, x) is MISSING for x in o.e.values())
    if name == "__contains__":
        return I.contains(o, a[0])
    if name == "__len__":
        return len(o.e)
    if name == "__iter__":
        return LazyIter(iterate(o))
    raise Unsupported("set.%s" % name)


def tuple_method(o, name, a, k):
    if name == "index":
        for i, x in enumerate(iterate(o)):
            if x is a[0] or eq(x, a[0]):
                return i
        throw("ValueError", "tuple.index(x): x not in tuple")
    if name == "count":
        return sum(1 for x in iterate(o) if x is a[0] or eq(x, a[0]))
    if name == "__len__":
        return len_(o)
    if name == "__iter__":
        return LazyIter(iterate(o))
    if name == "__getitem__":
        return getitem(o, a[0])
    if name == "__contains__":
        return I.contains(o, a[0])
    raise Unsupported("tuple.%s" % name)


# -- library modules ---------------------------------------------------------------------------

def lib(name):
    def d(f):
        def build():
            m = Mod(name, "<lib>")
            m.ns["__name__"] = name
            for kk, v in f().items():
                m.ns[kk] = v if not callable(v) or isinstance(v, (Cls, Builtin, Model)) else Builtin(name + "." + kk, v)
            return m
        I.LIB[name] = build
        return f
    return d


_SZ = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "x": 1, "?": 1, "c": 1, "s": 1}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if isinstance(fmt, AStr):
        raise Unsupported("abstract struct format")
    order = "@"
    if fmt and fmt[0] in "<>!=@":
        order, fmt = fmt[0], fmt[1:]
    little = order in "<=@"
    out = []
    for n, c in _re.findall(r"\s*(\d*)([a-zA-Z?])", fmt):
        if c not in _SZ:
            throw("struct.error", "bad char in struct format")
        if c in "sc?":
            raise Unsupported("struct format %r" % c)
        sz = _SZ[c] if order != "@" or c not in "lL" else 8
        out += [(c, sz)] * (int(n) if n else 1)
    return little, out


def s_pack(a, k):
    little, f = parse_fmt(a[0])
    vals = list(a[1:])
    need = [x for x in f if x[0] != "x"]
    if len(need) != len(vals):
        throw("struct.error", "pack expected %d items for packing (got %d)" % (len(need), len(vals)))
    out = []
    for c, sz in f:
        if c == "x":
            out.append(0)
            continue
        v = vals.pop(0)
        if not isinstance(v, (int, AInt)):
            m = meth(v, "__index__")
            if m is None:
                throw("struct.error", "required argument is not an integer")
            v = call(m, [], {})
        lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if c.islower() else (0, (1 << (8 * sz)) - 1)
        if truth(prim_cmp(v, lo, "__lt__")) or truth(prim_cmp(v, hi, "__gt__")):
            throw("struct.error", "format requires %d <= number <= %d" % (lo, hi))
        b = byte_units(w.store.norm(v), sz)
        out += b if little else b[::-1]
    return mkbytes(out)


def _buf(v):
    if isinstance(v, AList) and v.kind == "bytearray":
        return list(v.v)
    if not isinstance(v, (bytes, ABytes)):
        throw("TypeError", "a bytes-like object is required, not %s" % tname(v))
    return units(v)


def s_unpack(a, k, off=0, exact=True):
    little, f = parse_fmt(a[0])
    b = _buf(a[1])
    n = sum(s for _, s in f)
    if exact and len(b) != n or len(b) - off < n:
        throw("struct.error", "unpack requires a buffer of %d bytes" % n)
    out = []
    i = off
    for c, sz in f:
        u = b[i:i + sz]
        i += sz
        if c == "x":
            continue
        out.append(compose(u if little else u[::-1], c.islower()))
    return tuple(out)


@lib("struct")
def _():
    def mkstruct(a, k):
        f = a[0]
        return Model("struct", {
            "format": f, "size": sum(s for _, s in parse_fmt(f)[1]),
            "pack": Builtin("pack", lambda b, kk: s_pack([f] + b, kk)),
            "unpack": Builtin("unpack", lambda b, kk: s_unpack([f] + b, kk)),
            "unpack_from": Builtin("unpack_from", lambda b, kk: s_unpack([f] + b[:1], kk, b[1] if len(b) > 1 else 0, False)),
        })
    return {"pack": s_pack, "unpack": s_unpack,
            "unpack_from": lambda a, k: s_unpack(a[:2], {}, a[2] if len(a) > 2 else k.get("offset", 0), False),
            "calcsize": lambda a, k: sum(s for _, s in parse_fmt(a[0])[1]),
            "Struct": Builtin("Struct", mkstruct), "error": TYPES["struct.error"]}


def m_log(a, k, base=None):
    v = a[0]
    b = base if base is not None else (a[1] if len(a) > 1 else "e")
    if isinstance(v, Inst):
        v = int_(v) if meth(v, "__float__") is None and meth(v, "__index__") is not None else throw("TypeError", "must be real number")
    if isinstance(v, (int, float)):
        try:
            return math.log2(v) if b == "2" else math.log10(v) if b == "10" else math.log(v) if b == "e" else math.log(v, b)
        except ValueError:
            throw("ValueError", "math domain error")
    if isinstance(v, AInt):
        if truth(prim_cmp(v, 0, "__le__")):
            throw("ValueError", "math domain error")
        return AFloat(node("log", w.store.poly(v), b))
    raise Unsupported("log")


def m_round(op):
    def f(a, k):
        v = a[0]
        if isinstance(v, (int, AInt)):
            return v
        if isinstance(v, float):
            return getattr(math, op)(v)
        if isinstance(v, AFloat):
            return AInt(Poly.atom(node(op, v.n)))
        raise Unsupported(op)
    return f


@lib("math")
def _():
    return {"log": m_log, "log2": lambda a, k: m_log(a, k, "2"), "log10": lambda a, k: m_log(a, k, "10"),
            "floor": m_round("floor"), "ceil": m_round("ceil"), "trunc": m_round("trunc"),
            "gcd": lambda a, k: math.gcd(*[w.concretize(x) for x in a]),
            "inf": math.inf, "pi": math.pi, "e": math.e}


# re --------------------------------------------------------------------------------------

def _flags(a, k, i):
    v = a[i] if len(a) > i else k.get("flags", 0)
    return int(v) if isinstance(v, int) else 0


def _pat(p):
    if isinstance(p, Model) and p.kind == "regex":
        return p.h
    if isinstance(p, AStr):
        raise Unsupported("abstract pattern")
    return p, 0


def mk_match(s, groups, names):
    ps = S.parts_of(s)

    def grp(i):
        if isinstance(i, str):
            i = names[i]
        g = groups[i]
        if g is None:
            return None
        if isinstance(s, str):
            return s[g[0]:g[1]]
        return S.tslice(ps, *g)
    m = Model("match", {}, (s, groups, names, grp))
    return m


def _match_attr(m, name):
    s, groups, names, grp = m.h
    if name == "group":
        return Builtin("group", lambda a, k: grp(a[0] if a else 0) if len(a) <= 1 else tuple(grp(x) for x in a))
    if name == "groups":
        return Builtin("groups", lambda a, k: tuple(grp(i) for i in range(1, len(groups))))
    if name == "groupdict":
        return Builtin("groupdict", lambda a, k: mkdict([(n, grp(i)) for n, i in names.items()]))
    if name == "__getitem__":
        return Builtin("getitem", lambda a, k: grp(a[0]))
    if name in ("start", "end", "span") and isinstance(s, str):
        def f(a, k):
            g = groups[a[0] if a else 0]
            return g[0] if name == "start" else g[1] if name == "end" else g
        return Builtin(name, f)
    return unmodelled(_re.Match, name)


I.MODEL_ATTR["match"] = _match_attr


def re_matches(pat, s, how="finditer"):
    p, fl = pat
    names = dict(_re.compile(p, fl).groupindex)
    if isinstance(s, AStr):
        s = S.renorm(s)
    if not isinstance(s, (str, AStr)):
        throw("TypeError", "expected string or bytes-like object, got %r" % tname(s))
    if isinstance(s, str):
        it = list(_re.finditer(p, s, fl)) if how == "finditer" else [m for m in [getattr(_re, how)(p, s, fl)] if m]
        return s, [[m.span(i) if m.span(i)[0] >= 0 else None for i in range(m.re.groups + 1)] for m in it], names
    # one finite hole: all values may differ in structure -> go value by value
    return s, S.regex_spans(p, s, fl, how), names


def re_findall(pat, s):
    r = finite_map(s, ("findall", pat), lambda v: _re.findall(pat[0], v, pat[1]))
    if r is not NotImplemented:
        return AList([tuple(x) if isinstance(x, list) else x for x in r])
    s, ms, names = re_matches(pat, s)
    out = []
    for g in ms:
        m = mk_match(s, g, names)
        grp = m.h[3]
        if len(g) == 1:
            out.append(grp(0))
        elif len(g) == 2:
            out.append(grp(1) if grp(1) is not None else "")
        else:
            out.append(tuple(grp(i) if grp(i) is not None else "" for i in range(1, len(g))))
    return AList(out)


def finite_map(s, op, f):
    if isinstance(s, AStr):
        return S.map_finite(s, op, f)
    return NotImplemented


def expand(tmpl, m):
    """Replacement template with \\1 \\g<1> references."""
    s, groups, names, grp = m.h
    out = []
    pos = 0
    for x in _re.finditer(r"\\(?:(\d+)|g<(\w+)>|(.))", tmpl):
        out.append(tmpl[pos:x.start()])
        pos = x.end()
        if x.group(3):
            out.append({"n": "\n", "t": "\t", "\\": "\\"}.get(x.group(3), "\\" + x.group(3)))
        else:
            k = x.group(1) or x.group(2)
            k = int(k) if k.isdigit() else k
            v = grp(k)
            out.append(v if v is not None else "")
    out.append(tmpl[pos:])
    return mkstr(out)


def re_sub(pat, repl, s, count=0):
    if isinstance(repl, str):
        r = finite_map(s, ("sub", pat, repl, count), lambda v: _re.sub(pat[0], repl, v, count, pat[1]))
        if r is not NotImplemented:
            return r
    s, ms, names = re_matches(pat, s)
    out = []
    if isinstance(s, str):
        pos = 0
        for i, g in enumerate(ms):
            if count and i >= count:
                break
            out.append(s[pos:g[0][0]])
            m = mk_match(s, g, names)
            out.append(expand(repl, m) if isinstance(repl, str) else str_(call(repl, [m], {})))
            pos = g[0][1]
        out.append(s[pos:])
        return mkstr(out)
    ps = S.parts_of(s)
    pos = (0, 0)
    for i, g in enumerate(ms):
        if count and i >= count:
            break
        out.append(S.tslice(ps, pos, g[0][0]))
        m = mk_match(s, g, names)
        out.append(expand(repl, m) if isinstance(repl, str) else str_(call(repl, [m], {})))
        pos = g[0][1]
    out.append(S.tslice(ps, pos, (len(ps), 0)))
    return mkstr(out)


def re_split(pat, s, maxsplit=0):
    s, ms, names = re_matches(pat, s)
    out = []
    ps = S.parts_of(s)
    pos = 0 if isinstance(s, str) else (0, 0)
    end = len(s) if isinstance(s, str) else (len(ps), 0)
    cut = (lambda a, b: s[a:b]) if isinstance(s, str) else (lambda a, b: S.tslice(ps, a, b))
    for i, g in enumerate(ms):
        if maxsplit and i >= maxsplit:
            break
        out.append(cut(pos, g[0][0]))
        m = mk_match(s, g, names)
        out += [m.h[3](j) for j in range(1, len(g))]
        pos = g[0][1]
    out.append(cut(pos, end))
    return AList(out)


def re_one(pat, s, how):
    s, ms, names = re_matches(pat, s, how)
    return mk_match(s, ms[0], names) if ms else None


def _regex_attr(m, name):
    pat = m.h
    if name == "sub":
        return Builtin(name, lambda a, k: re_sub(pat, a[0], a[1], a[2] if len(a) > 2 else k.get("count", 0)))
    if name == "findall":
        return Builtin(name, lambda a, k: re_findall(pat, a[0]))
    if name == "split":
        return Builtin(name, lambda a, k: re_split(pat, a[0], a[1] if len(a) > 1 else 0))
    if name in ("match", "search", "fullmatch"):
        return Builtin(name, lambda a, k: re_one(pat, a[0], name))
    if name == "finditer":
        def f(a, k):
            s, ms, names = re_matches(pat, a[0])
            return LazyIter(mk_match(s, g, names) for g in ms)
        return Builtin(name, f)
    if name == "pattern":
        return pat[0]
    return unmodelled(_re.Pattern, name)


I.MODEL_ATTR["regex"] = _regex_attr


@lib("re")
def _():
    P_ = _pat

    def wf(a, k, i):
        p, f = P_(a[0])
        return p, f | _flags(a, k, i)
    d = {
        "compile": lambda a, k: a[0] if isinstance(a[0], Model) else Model("regex", {}, (a[0], _flags(a, k, 1))),
        "sub": lambda a, k: re_sub(wf(a, k, 4), a[1], a[2], a[3] if len(a) > 3 else k.get("count", 0)),
        "findall": lambda a, k: re_findall(wf(a, k, 2), a[1]),
        "split": lambda a, k: re_split(wf(a, k, 3), a[1], a[2] if len(a) > 2 else k.get("maxsplit", 0)),
        "match": lambda a, k: re_one(wf(a, k, 2), a[1], "match"),
        "search": lambda a, k: re_one(wf(a, k, 2), a[1], "search"),
        "fullmatch": lambda a, k: re_one(wf(a, k, 2), a[1], "fullmatch"),
        "escape": lambda a, k: _re.escape(a[0]),
    }

    def fi(a, k):
        s, ms, names = re_matches(wf(a, k, 2), a[1])
        return LazyIter(mk_match(s, g, names) for g in ms)
    d["finditer"] = fi
    for n in ("I", "IGNORECASE", "S", "DOTALL", "M", "MULTILINE", "X", "VERBOSE", "A", "ASCII"):
        d[n] = int(getattr(_re, n))
    return d


# files ------------------------------------------------------------------------------------

class FileData:
    __slots__ = ("chunks", "content", "name")


def mkfile(name, mode, content=None, std=False):
    """A file object.  content: what reading gives (bytes/ABytes or str/AStr).
    Writes are recorded, in order, on the file and its buffer."""
    binary = "b" in mode
    f = Model("file", {"name": name, "mode": mode, "closed": False})
    f.h = {"binary": binary, "content": content, "out": AList([]), "mode": mode, "read": AList([]), "lines": AList([]), "name": name}
    if not binary:
        b = Model("file", {"name": name, "mode": mode + "b", "closed": False})
        b.h = dict(f.h, binary=True)
        f.d["buffer"] = b
    return f


def _file_attr(f, name):
    h = f.h
    if name == "write":
        def wr(a, k):
            if not any(c in h["mode"] for c in "wax+"):
                throw("OSError", "not writable")
            if f.d.get("closed"):
                throw("ValueError", "I/O operation on closed file.")
            v = a[0]
            if isinstance(v, AList) and v.kind == "bytearray":
                v = mkbytes(v.v)
            if h["binary"]:
                if not isinstance(v, (bytes, ABytes)):
                    throw("TypeError", "a bytes-like object is required, not %s" % tname(v))
            elif not isinstance(v, (str, AStr)):
                throw("TypeError", "write() argument must be str, not %s" % tname(v))
            w.touch(h["out"])
            h["out"].v.append(v)
            return len_(v)
        return Builtin("write", wr)
    if name == "writelines":
        def wl(a, k):
            for x in iterate_list(a[0]):
                call(_file_attr(f, "write"), [x], {})
        return Builtin("writelines", wl)
    if name == "read":
        def rd(a, k):
            if f.d.get("closed"):
                throw("ValueError", "I/O operation on closed file.")
            if not any(c in h["mode"] for c in "r+"):
                throw("OSError", "not readable")
            n = a[0] if a and a[0] is not None else -1
            c = h["content"]
            if h["binary"]:
                if not isinstance(c, (bytes, ABytes)):
                    throw("TypeError", "text content read as binary")
                u = units(c)
            else:
                if isinstance(c, (bytes, ABytes)):
                    throw("UnicodeDecodeError", "binary data read as text")
                u = None
            r = h["read"]
            pos = r.v[-1] if r.v else 0
            w.touch(r)
            if u is not None:
                if isinstance(n, AInt):
                    n = w.concretize(n)
                e = len(u) if n < 0 else min(len(u), pos + n)
                r.v.append(e)
                return mkbytes(u[pos:e])
            if isinstance(n, AInt):
                n = w.concretize(n)
            if pos == "end":
                return ""
            if n < 0:
                r.v.append("end")
                return c if pos == 0 else I.str_slice(c, pos, None) if isinstance(c, AStr) else c[pos:]
            r.v.append(pos + n)
            return I.str_slice(c, pos, pos + n) if isinstance(c, AStr) else c[pos:pos + n]
        return Builtin("read", rd)
    if name == "readline":
        def rl(a, k):
            if h["binary"]:
                raise Unsupported("binary lines")
            q = h["lines"]
            if not q.v:
                w.touch(q)
                q.v.append(0)
                q.v.extend(iterate_list(call(_file_attr(f, "readlines"), [], {})))
            if q.v[0] + 1 >= len(q.v):
                return ""
            w.touch(q)
            q.v[0] += 1
            return q.v[q.v[0]]
        return Builtin(name, rl)
    if name in ("readlines", "__iter__"):
        def lines():
            c = _file_attr(f, "read").fn([], {})
            if isinstance(c, (bytes, ABytes)):
                raise Unsupported("binary lines")
            ls = S.method(c, "split", ["\n"], {})
            ls = [mkstr([x, "\n"]) for x in ls[:-1]] + ([ls[-1]] if ls[-1] != "" else [])
            return ls
        if name == "readlines":
            return Builtin(name, lambda a, k: AList(lines()))
        if name == "__iter__":
            return Builtin(name, lambda a, k: LazyIter(iter(lines())))
        return MISSING
    if name in ("seek", "tell", "truncate"):
        def sk(a, k):
            if name != "seek" or h["content"] is None or len(a) > 1 or not isinstance(a[0], int) or any(c in h["mode"] for c in "wax+") or not h["binary"] and a[0]:
                raise Unsupported("file " + name)
            for q in (h["read"], h["lines"]):
                w.touch(q)
                del q.v[:]
            h["read"].v.append(a[0])
            return a[0]
        return Builtin(name, sk)
    if name in ("flush", "fileno", "isatty"):
        return Builtin(name, lambda a, k: False if name == "isatty" else None)
    if name == "close":
        def cl(a, k):
            w.touch(f)
            f.d["closed"] = True
        return Builtin(name, cl)
    if name == "__enter__":
        return Builtin(name, lambda a, k: f)
    if name == "__exit__":
        def ex(a, k):
            w.touch(f)
            f.d["closed"] = True
        return Builtin(name, ex)
    if name in ("readable", "writable"):
        return Builtin(name, lambda a, k: any(c in h["mode"] for c in ("r+" if name == "readable" else "wax+")))
    if name == "encoding" and not h["binary"]:
        return "utf-8"
    return MISSING


I.MODEL_ATTR["file"] = _file_attr


def _file_iter(f):
    yield from iterate(call(_file_attr(f, "__iter__"), [], {}))


I.MODEL_ITER["file"] = _file_iter


@lib("sys")
def _():
    return {"stdin": mkfile("<stdin>", "r", b""), "stdout": mkfile("<stdout>", "w"), "stderr": mkfile("<stderr>", "w"),
            "argv": AList(["prog"]), "exit": lambda a, k: throw("SystemExit", *a), "maxsize": (1 << 63) - 1,
            "byteorder": "little", "version_info": (3, 12, 3, "final", 0), "platform": "linux",
            "modules": ADict()}


def _stringio(binary):
    def f(a, k):
        c = a[0] if a else (b"" if binary else "")
        m = mkfile("<io>", "rb+" if binary else "r+", c)
        m.h["mode"] = "r+"
        m.d.pop("buffer", None)
        return m
    return f


def _file_attr2(f, name, _old=_file_attr):
    if name == "getvalue":
        def g(a, k):
            h = f.h
            if not h["out"].v:
                return h["content"]
            if h["binary"]:
                return mkbytes([u for x in h["out"].v for u in units(x)])
            return mkstr(h["out"].v)
        return Builtin(name, g)
    r = _old(f, name)
    if r is MISSING:
        import io
        if name != "buffer" and hasattr(io.BufferedReader if f.h["binary"] else io.TextIOWrapper, name):
            raise Unsupported("file attribute " + name)
    return r


I.MODEL_ATTR["file"] = _file_attr2


@lib("io")
def _():
    return {"StringIO": _stringio(False), "BytesIO": _stringio(True), "open": BUILTINS["open"].fn,
            "TextIOBase": Model("abctype", {}, lambda v: isinstance(v, Model) and v.kind == "file" and not v.h["binary"]),
            "TextIOWrapper": Model("abctype", {}, lambda v: isinstance(v, Model) and v.kind == "file" and not v.h["binary"]),
            "BufferedIOBase": Model("abctype", {}, lambda v: isinstance(v, Model) and v.kind == "file" and v.h["binary"]),
            "RawIOBase": Model("abctype", {}, lambda v: False),
            "IOBase": Model("abctype", {}, lambda v: isinstance(v, Model) and v.kind == "file")}


WARNINGS = AList([])


@lib("warnings")
def _():
    def warn(a, k):
        w.touch(WARNINGS)
        WARNINGS.v.append(a[0])
    return {"warn": warn, "simplefilter": lambda a, k: None, "filterwarnings": lambda a, k: None}


@lib("logging")
def _():
    # with the default configuration, warnings and worse go to standard error
    def quiet(a, k):
        return None

    def loud(a, k):
        t = c_str(a[:1], {})
        if len(a) > 1:
            t = arith("%", t, tuple(a[1:]))
        call(_file_attr2(I.import_module("sys").ns["stderr"], "write"), [mkstr([t, "\n"])], {})
    fs = {n: Builtin(n, quiet) for n in ("debug", "info", "setLevel", "addHandler", "log")}
    fs.update({n: Builtin(n, loud) for n in ("warning", "error", "critical", "exception", "warn")})
    fs["isEnabledFor"] = Builtin("isEnabledFor", lambda a, k: isinstance(a[0], int) and a[0] >= 30)
    lg = Model("logger", dict(fs))
    d = {"getLogger": lambda a, k: lg, "NullHandler": lambda a, k: Model("handler"), "DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
    d.update({n: f for n, f in fs.items() if n not in ("setLevel", "addHandler", "isEnabledFor")})
    return d


# argparse -------------------------------------------------------------------------------------

ARGV = [["prog"]]


def _argparser(a, k):
    p = Model("argparser", {}, {"args": AList([]), "defaults": {}})
    for n, v in k.items():
        if n == "parents":
            for q in iterate_list(v):
                p.h["args"].v.extend(q.h["args"].v)
                p.h["defaults"].update(q.h["defaults"])
        elif n not in ("description", "prog", "usage", "epilog", "formatter_class", "add_help", "exit_on_error", "allow_abbrev"):
            raise Unsupported("ArgumentParser(%s=...)" % n)
    return p


def _argparser_attr(p, name):
    if name == "add_argument":
        def add(a, k):
            w.touch(p.h["args"])
            p.h["args"].v.append((tuple(a), dict(k)))
            return None
        return Builtin(name, add)
    if name in ("parse_args", "parse_known_args"):
        def parse(a, k):
            argv = iterate_list(a[0]) if a and a[0] is not None else list(ARGV[0][1:])
            ns = run_argparse(p, argv)
            return ns if name == "parse_args" else (ns, AList([]))
        return Builtin(name, parse)
    if name in ("add_argument_group", "add_mutually_exclusive_group"):
        return Builtin(name, lambda a, k: p)
    if name == "error":
        return Builtin(name, lambda a, k: throw("SystemExit", 2))
    if name in ("print_help", "print_usage"):
        return Builtin(name, lambda a, k: None)
    if name == "set_defaults":
        def sd(a, k):
            p.h["defaults"].update(k)
        return Builtin(name, sd)
    import argparse
    return unmodelled(argparse.ArgumentParser, name)


I.MODEL_ATTR["argparser"] = _argparser_attr


def _namespace_attr(o, name):
    if name == "__dict__":
        d = mkdict(list(o.d.items()))
        d.default = ("instdict", o)
        return d
    if name.startswith("__") or name == "_get_kwargs":
        raise Unsupported("attribute %s of a namespace" % name)
    return MISSING


I.MODEL_ATTR["namespace"] = _namespace_attr


def run_argparse(p, argv):
    """argparse is trusted: use the host library on strings, then apply the
    declared conversions abstractly."""
    import argparse
    ap = argparse.ArgumentParser(prog="prog", add_help=True, exit_on_error=False)
    types = {}
    try:
        for names, k in p.h["args"].v:
            kk = {}
            for n, v in k.items():
                if n in ("help", "metavar", "type"):
                    continue
                if isinstance(v, AList):
                    v = list(v.v)
                if isinstance(v, (str, int, bool, type(None), float, list, tuple)):
                    kk[n] = v
                elif n == "default":
                    kk[n] = v
                else:
                    raise Unsupported("argparse %s=%r" % (n, v))
            act = ap.add_argument(*names, **kk)
            if "type" in k:
                types[act.dest] = (k["type"], kk.get("choices"))
    except TypeError as e:
        throw("TypeError", str(e))
    try:
        ns = ap.parse_args([str(x) for x in argv])
    except (argparse.ArgumentError, SystemExit):
        throw("SystemExit", 2)
    out = Model("namespace", {})
    for n, v in vars(ns).items():
        if n in types and isinstance(v, str):
            v = call(types[n][0], [v], {})
        out.d[n] = v if not isinstance(v, list) else AList(v)
    for n, v in p.h["defaults"].items():
        out.d.setdefault(n, v)
    return out


def _filetype(a, k):
    mode = a[0] if a else k.get("mode", "r")
    m = Model("filetype", {}, mode)
    return m


def _filetype_call(m, a, k):
    name = a[0]
    mode = m.h
    if name == "-":
        sysm = I.import_module("sys")
        f = sysm.ns["stdin"] if "r" in mode else sysm.ns["stdout"]
        return f.d["buffer"] if "b" in mode else f
    return OPEN[0](name, mode)


I.MODEL_CALL["filetype"] = _filetype_call


@lib("argparse")
def _():
    return {"ArgumentParser": _argparser, "FileType": _filetype,
            "ArgumentDefaultsHelpFormatter": Model("typing"), "RawDescriptionHelpFormatter": Model("typing"),
            "Namespace": lambda a, k: Model("namespace", dict(k)), "SUPPRESS": "==SUPPRESS=="}


# functools & co ------------------------------------------------------------------------------

@lib("functools")
def _():
    def reduce(a, k):
        items = iterate_list(a[1])
        if len(a) > 2:
            acc = a[2]
        else:
            if not items:
                throw("TypeError", "reduce() of empty iterable with no initial value")
            acc = items.pop(0)
        for x in items:
            acc = call(a[0], [acc, x], {})
        return acc

    def partial(a, k):
        return Builtin("partial", lambda b, kk: call(a[0], a[1:] + b, dict(k, **kk)))

    def cache(a, k):
        if a and not isinstance(a[0], int):
            return memo(a[0])
        return Builtin("lru_cache", lambda b, kk: memo(b[0]))

    def memo(f):
        # a cache is state: keep it so that leaks through it stay visible
        d = ADict()
        d.default = ("memo", f)

        def run(a, k):
            if k:
                return call(f, a, k)
            key = tuple(a)
            v = dict_get(d, key)
            if v is MISSING:
                v = call(f, a, k)
                dict_set(d, key, v)
            return v
        b = Builtin("method:" + getattr(f, "name", "cached"), run)
        return b

    def wrapped(f, g):
        if isinstance(f, I.Func):
            w.touch(f)
            f.d["__wrapped__"] = g
            for n in ("__name__", "__qualname__", "__doc__", "__module__"):
                v = I.getattr_raw(g, n)
                if v is not MISSING:
                    f.d[n] = v
            if isinstance(g, I.Func):
                for n, v in g.d.items():
                    f.d.setdefault(n, v)
        return f
    return {"reduce": reduce, "partial": partial, "wraps": lambda a, k: Builtin("wraps", lambda b, kk: wrapped(b[0], a[0])), "lru_cache": cache, "cache": cache,
            "total_ordering": total_ordering, "cached_property": lambda a, k: CachedProperty(a[0]),
            "cmp_to_key": lambda a, k: Builtin("key", lambda b, kk: cmp_key(a[0], b[0])),
            "singledispatch": lambda a, k: singledispatch(a[0]),
            "singledispatchmethod": lambda a, k: singledispatch(a[0], True)}


def _annotated(n, mod):
    import ast
    if isinstance(n, ast.Name):
        v = mod.ns.get(n.id, BUILTINS.get(n.id))
    elif isinstance(n, ast.Attribute):
        v = I.getattr_raw(_annotated(n.value, mod), n.attr)
    else:
        v = None
    if not isinstance(v, (Cls, Mod)):
        raise Unsupported("singledispatch by annotation")
    return v


def singledispatch(f, method=False):
    reg = [(I.T_object, f)]

    def pick(a):
        if len(a) <= int(method):
            throw("TypeError", "singledispatch needs an argument")
        for c in type_of(a[int(method)]).mro:
            for t, g in reversed(reg):
                if t is c:
                    return g
        return f

    def register(a, k):
        if isinstance(a[0], I.Func):
            args = a[0].node.args.args
            t = _annotated(args[int(method)].annotation if len(args) > int(method) else None, a[0].mod)
            reg.append((t, a[0]))
            return a[0]
        if not isinstance(a[0], Cls):
            raise Unsupported("singledispatch on %r" % (a[0],))
        if len(a) > 1:
            reg.append((a[0], a[1]))
            return a[1]

        def deco(b, kk):
            reg.append((a[0], b[0]))
            return b[0]
        return Builtin("register", deco)
    if method:
        d = Builtin("method:" + getattr(f, "name", "dispatch"), lambda a, k: call(pick(a), a, k))
    else:
        d = Builtin(getattr(f, "name", "dispatch"), lambda a, k: call(pick(a), a, k))
    d.register = Builtin("register", register)
    return d


def cmp_key(f, v):
    o = Inst(CMPKEY[0])
    o.d["f"], o.d["v"] = f, v
    return o


def _cmp(op):
    return Builtin("method:__%s__" % op, lambda a, k: compare("__%s__" % op, call(a[0].d["f"], [a[0].d["v"], a[1].d["v"]], {}), 0))


CMPKEY = [None]


def _cmpkey_class():
    CMPKEY[0] = I.new_class("K", [], {"__%s__" % n: _cmp(n) for n in ("lt", "le", "gt", "ge", "eq")})


_cmpkey_class()


def total_ordering(a, k):
    c = a[0]
    have = [n for n in ("__lt__", "__le__", "__gt__", "__ge__") if n in c.ns]

    def add(n, fn):
        if n not in c.ns:
            c.ns[n] = Builtin("method:" + n, lambda b, kk: fn(b[0], b[1]))
    w.touch(c)
    if "__lt__" in have:
        lt = lambda x, y: truth(compare("__lt__", x, y))
        add("__gt__", lambda x, y: not lt(x, y) and not eq(x, y))
        add("__le__", lambda x, y: lt(x, y) or eq(x, y))
        add("__ge__", lambda x, y: not lt(x, y))
    elif have:
        raise Unsupported("total_ordering")
    return c


@lib("itertools")
def _():
    def chain(a, k):
        def g():
            for x in a:
                yield from iterate(x)
        return LazyIter(g())

    def islice(a, k):
        s = slice(*[w.concretize(x) if x is not None else None for x in a[1:]])

        def g():
            st, sp, step = s.start or 0, s.stop, s.step or 1
            for i, x in enumerate(iterate(a[0])):
                if sp is not None and i >= sp:
                    return
                if i >= st and (i - st) % step == 0:
                    yield x
                if sp is not None and i + 1 >= sp:
                    return
        return LazyIter(g())

    def groupby(a, k):
        key = a[1] if len(a) > 1 else k.get("key")

        def g():
            cur, kv = [], MISSING
            for x in iterate(a[0]):
                kx = call(key, [x], {}) if key is not None else x
                if kv is MISSING or not eq(kx, kv):
                    if kv is not MISSING:
                        yield (kv, LazyIter(iter(cur)))
                    cur, kv = [], kx
                cur.append(x)
            if kv is not MISSING:
                yield (kv, LazyIter(iter(cur)))
        return LazyIter(g())

    def takewhile(a, k):
        def g():
            for x in iterate(a[1]):
                if not truth(call(a[0], [x], {})):
                    return
                yield x
        return LazyIter(g())

    def dropwhile(a, k):
        def g():
            on = False
            for x in iterate(a[1]):
                if not on and truth(call(a[0], [x], {})):
                    continue
                on = True
                yield x
        return LazyIter(g())

    def count(a, k):
        def g():
            i = a[0] if a else 0
            n = 0
            while True:
                yield i
                i = arith("+", i, a[1] if len(a) > 1 else 1)
                n += 1
                if n > 100000:
                    raise Diverges("itertools.count")
        return LazyIter(g())

    def repeat(a, k):
        def g():
            if len(a) > 1:
                for _ in range(w.concretize(a[1])):
                    yield a[0]
            else:
                for _ in range(100000):
                    yield a[0]
                raise Diverges("itertools.repeat")
        return LazyIter(g())

    def accumulate(a, k):
        def g():
            acc = MISSING
            for x in iterate(a[0]):
                acc = x if acc is MISSING else (call(a[1], [acc, x], {}) if len(a) > 1 else arith("+", acc, x))
                yield acc
        return LazyIter(g())

    def zip_longest(a, k):
        ls = [iterate_list(x) for x in a]
        n = max(map(len, ls), default=0)
        fv = k.get("fillvalue")
        return LazyIter(tuple(l[i] if i < len(l) else fv for l in ls) for i in range(n))

    def starmap(a, k):
        return LazyIter(call(a[0], iterate_list(x), {}) for x in iterate(a[1]))

    def pairwise(a, k):
        l = iterate_list(a[0])
        return LazyIter(iter(list(zip(l, l[1:]))))

    def product(a, k):
        import itertools
        return LazyIter(iter(list(itertools.product(*[iterate_list(x) for x in a], repeat=k.get("repeat", 1)))))

    def filterfalse(a, k):
        return LazyIter(x for x in iterate(a[1]) if not truth(x if a[0] is None else call(a[0], [x], {})))

    def tee(a, k):
        l = iterate_list(a[0])
        return tuple(LazyIter(iter(list(l))) for _ in range(a[1] if len(a) > 1 else 2))
    ch = Model("chain", {"from_iterable": Builtin("from_iterable", lambda a, k: LazyIter(y for x in iterate(a[0]) for y in iterate(x)))})
    I.MODEL_CALL["chain"] = lambda m, a, k: chain(a, k)
    return {"chain": ch, "islice": islice, "groupby": groupby, "takewhile": takewhile, "dropwhile": dropwhile, "count": count,
            "repeat": repeat, "accumulate": accumulate, "zip_longest": zip_longest, "starmap": starmap,
            "pairwise": pairwise, "product": product,
            "compress": lambda a, k: LazyIter(x for x, y in zip(iterate(a[0]), iterate_list(a[1])) if truth(y)),
            "combinations": lambda a, k: LazyIter(iter(list(_itertools.combinations(iterate_list(a[0]), a[1])))),
            "permutations": lambda a, k: LazyIter(iter(list(_itertools.permutations(iterate_list(a[0]), *a[1:])))),
            "batched": lambda a, k: LazyIter(_batched(a[0], a[1])), "filterfalse": filterfalse, "tee": tee}


def _batched(it, n):
    l = iterate_list(it)
    for i in range(0, len(l), n):
        yield tuple(l[i:i + n])


@lib("collections")
def _():
    def defaultdict(a, k):
        d = c_dict(a[1:], k)
        d.default = a[0] if a else None
        return d

    def deque(a, k):
        l = AList(iterate_list(a[0]) if a else [], "deque")
        m = a[1] if len(a) > 1 else k.get("maxlen")
        l.maxlen = m
        I.trim(l)
        return l

    def counter(a, k):
        d = ADict()
        d.default = ZERO
        for x in (iterate_list(a[0]) if a else []):
            v = dict_get(d, x)
            dict_set(d, x, 1 if v is MISSING else arith("+", v, 1))
        return d
    return {"defaultdict": defaultdict, "deque": Model("dequetype"), "OrderedDict": c_dict, "Counter": counter,
            "namedtuple": namedtuple}


I.MODEL_CALL["dequetype"] = lambda m, a, k: _deque(a, k)


def _deque(a, k):
    l = AList(iterate_list(a[0]) if a else [], "deque")
    l.maxlen = a[1] if len(a) > 1 else k.get("maxlen")
    I.trim(l)
    return l


def namedtuple(a, k):
    name, fields = a[0], a[1]
    fs = fields.replace(",", " ").split() if isinstance(fields, str) else iterate_list(fields)
    defaults = iterate_list(k["defaults"]) if "defaults" in k else []

    def init(b, kk):
        o = b[0]
        vals = list(b[1:])
        for i, f in enumerate(fs):
            if i < len(vals):
                o.d[f] = vals[i]
            elif f in kk:
                o.d[f] = kk[f]
            else:
                j = i - (len(fs) - len(defaults))
                if j < 0:
                    throw("TypeError", "missing field %s" % f)
                o.d[f] = defaults[j]
        if len(vals) > len(fs):
            throw("TypeError", "too many arguments")
    tup = lambda o: tuple(o.d[f] for f in fs)
    ns = {
        "__init__": Builtin("method:__init__", init),
        "__iter__": Builtin("method:__iter__", lambda b, kk: LazyIter(iter(tup(b[0])))),
        "__len__": Builtin("method:__len__", lambda b, kk: len(fs)),
        "__getitem__": Builtin("method:__getitem__", lambda b, kk: getitem(tup(b[0]), b[1])),
        "__eq__": Builtin("method:__eq__", lambda b, kk: eq(tup(b[0]), tup(b[1]) if isinstance(b[1], Inst) and b[1].cls is b[0].cls else b[1])),
        "__hash__": Builtin("method:__hash__", lambda b, kk: I.hash_(tup(b[0]))),
        "_replace": Builtin("method:_replace", lambda b, kk: _nt_replace(b[0], fs, kk)),
        "_asdict": Builtin("method:_asdict", lambda b, kk: mkdict([(f, b[0].d[f]) for f in fs])),
        "_fields": tuple(fs),
        "__match_args__": tuple(fs),
    }
    return I.new_class(name, [], ns)


I.NAMEDTUPLE = namedtuple


def _nt_replace(o, fs, kk):
    n = Inst(o.cls)
    n.d.update(o.d)
    n.d.update(kk)
    return n


@lib("operator")
def _():
    def itemgetter(a, k):
        if len(a) == 1:
            return Builtin("itemgetter", lambda b, kk: getitem(b[0], a[0]))
        return Builtin("itemgetter", lambda b, kk: tuple(getitem(b[0], x) for x in a))

    def one(o, path):
        for p in path.split("."):
            o = getattr_(o, p)
        return o

    def attrgetter(a, k):
        if len(a) == 1:
            return Builtin("attrgetter", lambda b, kk: one(b[0], a[0]))
        return Builtin("attrgetter", lambda b, kk: tuple(one(b[0], x) for x in a))

    def methodcaller(a, k):
        return Builtin("methodcaller", lambda b, kk: call(getattr_(b[0], a[0]), a[1:], k))
    d = {"itemgetter": itemgetter, "attrgetter": attrgetter, "methodcaller": methodcaller,
         "not_": lambda a, k: not truth(a[0]), "truth": lambda a, k: truth(a[0]),
         "neg": lambda a, k: I.unary("-", a[0]), "invert": lambda a, k: I.unary("~", a[0]), "inv": lambda a, k: I.unary("~", a[0]),
         "getitem": lambda a, k: getitem(a[0], a[1]), "contains": lambda a, k: I.contains(a[0], a[1]),
         "is_": lambda a, k: a[0] is a[1], "index": lambda a, k: to_index(a[0]),
         "iadd": lambda a, k: I.inplace("+", a[0], a[1])}
    for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("floordiv", "//"), ("mod", "%"), ("and_", "&"), ("or_", "|"),
                  ("xor", "^"), ("lshift", "<<"), ("rshift", ">>"), ("truediv", "/"), ("pow", "**"), ("concat", "+")):
        d[n] = (lambda op: lambda a, k: arith(op, a[0], a[1]))(op)
    for n in ("eq", "ne", "lt", "le", "gt", "ge"):
        d[n] = (lambda n: lambda a, k: compare("__%s__" % n, a[0], a[1]))(n)
    return d


def abstract(f):
    g = f.fget if isinstance(f, Property) else getattr(f, "fn", f)
    if isinstance(g, I.Func):
        w.touch(g)
        g.d["__isabstractmethod__"] = True
        I.ABSTRACT[0] = True
    return f


@lib("abc")
def _():
    return {"ABC": Model("abc"), "ABCMeta": I.T_type, "abstractmethod": lambda a, k: abstract(a[0])}


@lib("copy")
def _():
    return {"copy": lambda a, k: shallow(a[0]), "deepcopy": lambda a, k: deep(a[0], {})}


def shallow(v):
    if isinstance(v, AList):
        r = AList(list(v.v), v.kind)
        r.maxlen = v.maxlen
        return r
    if isinstance(v, ADict):
        return dict_method(v, "copy", [], {})
    if isinstance(v, ASet):
        return mkset(list(v.e.values()), v.frozen)
    if isinstance(v, Inst):
        m = meth(v, "__copy__")
        if m is not None:
            return call(m, [], {})
        r = Inst(v.cls)
        r.d = dict(v.d)
        return r
    return v


def deep(v, memo):
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, tuple):
        return tuple(deep(x, memo) for x in v)
    if isinstance(v, (AList, ADict, ASet, Inst)):
        r = shallow(v)
        memo[id(v)] = r
        if isinstance(r, AList):
            r.v = [deep(x, memo) for x in r.v]
        elif isinstance(r, ADict):
            r.e = {c: (deep(k, memo), deep(x, memo)) for c, (k, x) in r.e.items()}
        elif isinstance(r, Inst):
            r.d = {k: deep(x, memo) for k, x in r.d.items()}
        return r
    return v


@lib("contextlib")
def _():
    def suppress(a, k):
        m = Model("suppress", {}, a)
        m.d["__enter__"] = Builtin("enter", lambda b, kk: m)
        m.d["__exit__"] = Builtin("exit", lambda b, kk: b[1] is not None and any(is_instance(b[1], t) for t in a))
        return m

    def closing(a, k):
        m = Model("closing", {}, a)
        m.d["__enter__"] = Builtin("enter", lambda b, kk: a[0])
        m.d["__exit__"] = Builtin("exit", lambda b, kk: call(getattr_(a[0], "close"), [], {}) and None)
        return m

    def nullcontext(a, k):
        m = Model("nullcontext", {}, a)
        m.d["__enter__"] = Builtin("enter", lambda b, kk: a[0] if a else None)
        m.d["__exit__"] = Builtin("exit", lambda b, kk: None)
        return m

    def contextmanager(a, k):
        f = a[0]

        def mk_(b, kk):
            g = call(f, b, kk)
            m = Model("ctx", {}, g)
            m.d["__enter__"] = Builtin("enter", lambda c, q: I.next_(g))

            def ex(c, q):
                if c[1] is not None:
                    try:
                        g.host.throw(PyExc(c[1], w.line))
                    except StopIteration:
                        return True
                    except PyExc as e:
                        if e.value is c[1]:
                            return False
                        raise
                    return False
                try:
                    next(g.host)
                except StopIteration:
                    return None
                throw("RuntimeError", "generator didn't stop")
            m.d["__exit__"] = Builtin("exit", ex)
            return m
        return Builtin("method:ctx", mk_)
    return {"suppress": suppress, "closing": closing, "nullcontext": nullcontext, "contextmanager": contextmanager}


@lib("typing")
def _():
    d = {n: Model("typing") for n in ("Any", "Optional", "Union", "List", "Dict", "Tuple", "Set", "Iterable", "Iterator",
                                      "Callable", "Type", "Sequence", "Mapping", "ClassVar", "Generic", "Protocol", "IO",
                                      "BinaryIO", "TextIO", "Generator", "Final", "FrozenSet", "DefaultDict", "Deque")}
    d["TYPE_CHECKING"] = False
    d["TypeVar"] = lambda a, k: Model("typing")
    d["NamedTuple"] = Model("NamedTuple")
    I.MODEL_CALL["NamedTuple"] = lambda m, a, k: namedtuple([a[0], AList([x[0] for x in map(iterate_list, iterate_list(a[1]))])], {})
    d["cast"] = lambda a, k: a[1]
    return d


@lib("types")
def _():
    return {"SimpleNamespace": lambda a, k: Model("namespace", dict(k)), "MappingProxyType": lambda a, k: a[0]}


@lib("os")
def _():
    return {"path": I.Unk("os.path"), "environ": ADict(), "linesep": "\n", "sep": "/",
            "fdopen": lambda a, k: throw("OSError", "fdopen")}


@lib("binascii")
def _():
    return {"hexlify": lambda a, k: _unsup("hexlify"), "unhexlify": lambda a, k: fromhex(a[0]) if isinstance(a[0], (str, AStr)) else _unsup("unhexlify"),
            "Error": TYPES["ValueError"]}


@lib("string")
def _():
    import string
    return {n: getattr(string, n) for n in ("hexdigits", "digits", "ascii_letters", "whitespace", "ascii_lowercase", "ascii_uppercase",
                                            "punctuation", "printable")}


@lib("numbers")
def _():
    isnum = lambda v: isinstance(v, (int, AInt))
    return {"Integral": Model("abctype", {}, isnum), "Number": Model("abctype", {}, lambda v: isinstance(v, (int, AInt, float, AFloat)))}


@lib("collections.abc")
def _():
    return {"Iterable": Model("abctype", {}, lambda v: isinstance(v, (AList, ADict, ASet, tuple, str, AStr, bytes, ABytes, ARange, GenObj, LazyIter)) or meth(v, "__iter__") is not None),
            "Sequence": Model("abctype", {}, lambda v: isinstance(v, (AList, tuple, str, AStr, bytes, ABytes, ARange))),
            "Mapping": Model("abctype", {}, lambda v: isinstance(v, ADict)),
            "Hashable": Model("abctype", {}, lambda v: True),
            "Callable": Model("abctype", {}, lambda v: truth(BUILTINS["callable"].fn([v], {})))}


ENUM = '''
class auto:
    pass

class EnumMeta(type):
    def __init__(cls, name, bases, dct):
        names = []
        for b in bases:
            names += getattr(b, "_member_names_", [])
        last = 0
        members = {}
        for k, v in list(dct.items()):
            if k.startswith("_") or callable(v) or isinstance(v, (property, staticmethod, classmethod)):
                continue
            if isinstance(v, auto):
                v = (1 << last.bit_length()) if cls._flag_ else last + 1
            if isinstance(v, int):
                last = v
            found = None
            for o in members.values():
                if o._value_ == v:
                    found = o
            if found is None:
                found = cls._make_(k, v)
                names.append(k)
            members[k] = found
            setattr(cls, k, found)
        cls._member_names_ = names
        cls.__members__ = members
    def __iter__(cls):
        for n in cls._member_names_:
            yield cls.__members__[n]
    def __len__(cls):
        return len(cls._member_names_)
    def __contains__(cls, x):
        for o in cls.__members__.values():
            if o is x or (not isinstance(x, Enum) and o._value_ == x):
                return True
        return False
    def __getitem__(cls, n):
        return cls.__members__[n]
    def __call__(cls, v):
        if isinstance(v, cls):
            return v
        for o in cls.__members__.values():
            if o._value_ == v:
                return o
        if cls._flag_:
            return cls._make_(None, v)
        raise ValueError("%r is not a valid %s" % (v, cls.__name__))

class Enum(metaclass=EnumMeta):
    _flag_ = False
    @classmethod
    def _make_(cls, name, value):
        o = object.__new__(cls)
        if isinstance(value, tuple) and cls._own_init_():
            o._value_ = value
            o._name_ = name
            o.__init__(*value)
        else:
            o._value_ = value
            o._name_ = name
            if cls._own_init_():
                o.__init__(value)
        return o
    @classmethod
    def _own_init_(cls):
        for c in cls.__mro__:
            if "__init__" in vars(c):
                return c is not object
        return False
    @property
    def name(self):
        return self._name_
    @property
    def value(self):
        return self._value_
    def __str__(self):
        return "%s.%s" % (type(self).__name__, self._name_)
    def __repr__(self):
        return "<%s.%s: %r>" % (type(self).__name__, self._name_, self._value_)
    def __hash__(self):
        return hash(self._name_)
    def __eq__(self, other):
        return self is other

class Flag(Enum):
    _flag_ = True
    def __eq__(self, other):
        return type(self) is type(other) and self._value_ == other._value_
    def __hash__(self):
        return hash(self._value_)
    def __or__(self, o):
        return type(self)(self._value_ | o._value_)
    def __and__(self, o):
        return type(self)(self._value_ & o._value_)
    def __xor__(self, o):
        return type(self)(self._value_ ^ o._value_)
    def __bool__(self):
        return self._value_ != 0
    def __contains__(self, o):
        return o._value_ & self._value_ == o._value_

def unique(c):
    return c
'''


@lib("enum")
def _():
    import ast
    from .compile import compile_script
    m = I.Mod("enum", "<enum>")
    m.ns["__name__"], m.ns["__package__"] = "enum", ""
    cur = I.w_cur_mod[0]
    compile_script(ast.parse(ENUM, m.path), m)(m)
    I.w_cur_mod[0] = cur
    return {k: v for k, v in m.ns.items() if not k.startswith("__")}


@lib("dataclasses")
def _():
    return {"dataclass": dataclass, "asdict": lambda a, k: dc_asdict(a[0]), "astuple": lambda a, k: tuple(
        a[0].d[f] for f in a[0].cls.lookup("__dataclass_fields__")), "FrozenInstanceError": TYPES["AttributeError"], "field": lambda a, k: Model("dcfield", {}, k),
            "replace": lambda a, k: _nt_replace(a[0], None, k)}


def dataclass(a, k):
    if not a:
        return Builtin("dataclass", lambda b, kk: dataclass(b, dict(k)))
    import ast
    c = a[0]
    fs = []
    for b in reversed(c.mro):
        if b.node is None:
            continue
        for s in b.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                t = ast.unparse(s.annotation)
                if "ClassVar" in t:
                    continue
                if "InitVar" in t or "KW_ONLY" in t:
                    raise Unsupported("dataclass annotation %s" % t)
                if any(f == s.target.id for f, _ in fs):
                    fs = [(f, b.ns.get(f, MISSING) if f == s.target.id else d) for f, d in fs]
                else:
                    fs.append((s.target.id, b.ns.get(s.target.id, MISSING)))
    for n, v in k.items():
        if n not in ("frozen", "order", "eq", "repr", "slots", "init", "match_args") or n in ("eq", "repr", "init") and not truth(v):
            raise Unsupported("dataclass(%s=...)" % n)
    for f, d in fs:
        if isinstance(d, Model) and d.kind == "dcfield" and set(d.h) - {"default", "default_factory", "repr", "metadata"}:
            raise Unsupported("dataclass field options")

    def init(b, kk):
        o = b[0]
        vals = list(b[1:])
        kk = dict(kk)
        for f, d in fs:
            if vals:
                v = vals.pop(0)
            elif f in kk:
                v = kk.pop(f)
            elif isinstance(d, Model) and d.kind == "dcfield":
                if "default_factory" in d.h:
                    v = call(d.h["default_factory"], [], {})
                elif "default" in d.h:
                    v = d.h["default"]
                else:
                    throw("TypeError", "missing argument %s" % f)
            elif d is not MISSING:
                v = d
            else:
                throw("TypeError", "missing argument %s" % f)
            I.raw_setattr(o, f, v)
        if vals or kk:
            throw("TypeError", "too many arguments")
        p = o.cls.lookup("__post_init__")
        if p is not MISSING:
            call(BoundMethod(p, o), [], {})
    w.touch(c)
    if "__init__" not in c.ns:
        c.ns["__init__"] = Builtin("method:__init__", init)
    if "__eq__" not in c.ns:
        c.ns["__eq__"] = Builtin("method:__eq__", lambda b, kk: (
            isinstance(b[1], Inst) and b[1].cls is b[0].cls and all(eq(b[0].d[f], b[1].d[f]) for f, _ in fs)) or
            (NotImplemented if not (isinstance(b[1], Inst) and b[1].cls is b[0].cls) else False))
        if truth(k.get("frozen", False)):
            c.ns["__hash__"] = Builtin("method:__hash__", lambda b, kk: I.hash_(tuple(b[0].d[f] for f, _ in fs)))
        else:
            c.ns["__hash__"] = None
    for f, d in fs:
        if isinstance(d, Model) and d.kind == "dcfield" and f in c.ns:
            if "default" in d.h:
                c.ns[f] = d.h["default"]
    vals = lambda o: tuple(o.d[f] for f, _ in fs)
    if "__repr__" not in c.ns:
        c.ns["__repr__"] = Builtin("method:__repr__", lambda b, kk: mkstr(
            [b[0].cls.name, "("] + I.sep_join(", ", [mkstr([f, "=", repr_(b[0].d[f])]) for f, _ in fs]) + [")"]))
    c.ns.setdefault("__match_args__", tuple(f for f, _ in fs))
    c.ns["__dataclass_fields__"] = tuple(f for f, _ in fs)
    if truth(k.get("frozen", False)):
        c.ns["__setattr__"] = Builtin("method:__setattr__", lambda b, kk: throw("AttributeError", "cannot assign to field"))
    if truth(k.get("order", False)):
        for n in ("lt", "le", "gt", "ge"):
            c.ns["__%s__" % n] = (lambda n: Builtin("method:__%s__" % n, lambda b, kk: compare("__%s__" % n, vals(b[0]), vals(b[1]))
                                                    if isinstance(b[1], Inst) and b[1].cls is b[0].cls else NotImplemented))(n)
    return c


def dc_asdict(v):
    if isinstance(v, Inst) and v.cls.lookup("__dataclass_fields__") is not MISSING:
        return mkdict([(f, dc_asdict(v.d[f])) for f in v.cls.lookup("__dataclass_fields__")])
    if isinstance(v, AList):
        return AList([dc_asdict(x) for x in v.v])
    if isinstance(v, tuple):
        return tuple(dc_asdict(x) for x in v)
    if isinstance(v, ADict):
        return mkdict([(x, dc_asdict(y)) for x, y in v.e.values()])
    return deep(v, {})


def _unsup(x):
    raise Unsupported(x)
