"""Item encoding: shared by C01 and C02."""
from .. import lib, spec
from ..lib import get, call, m, attr, sym, same, show, w, AInt, ABytes, I, known_eq
from ..engine.num import INF
from ..engine.objs import Inst

ITEM = "hrdc.stream.item:"
U32 = (1 << 32) - 1


def legal(name):
    if name in spec.NO_VALUE:
        return 0, 0
    if spec.ITEMS[name][2]:
        return -(1 << 31), (1 << 31) - 1
    return 0, U32


LOW = [0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 511, 0x155, 0xaa]


def ranges(name, tier):
    """Abstract inputs: (label, value) covering the legal range."""
    lo, hi = legal(name)
    if lo == hi:
        return [("value", lo)]
    if name in spec.FLAG_ITEMS:
        # nine defined flags, all combinations, and the reserved high bits
        if tier != "quick":
            return [("flags", sym("v", 0, 511)), ("reserved", sym("v", 512, U32))]
        return [("flags", sym("v", 0, 511))] + [("reserved.%d" % l, lib.add(lib.mul(sym("h", 1, U32 >> 9), 512), l)) for l in LOW]
    return [("value", sym("v", lo, hi))]


def build(name, v):
    """The item as a user builds it."""
    cls = get(ITEM + name)
    if name in spec.NO_VALUE:
        return call(cls)
    return call(cls, v)


def items(v):
    return tuple(lib.I.units(v))


def size_class(name, v):
    """Number of payload bytes the specification wants; partitions further."""
    kind, tag, signed = spec.ITEMS[name]
    if name == "EndCollection":
        return 0
    st = w.store
    if signed:
        for n, (lo, hi) in ((1, (-128, 127)), (2, (-32768, 32767))):
            if I.truth(I.compare("__le__", lo, v)) and I.truth(I.compare("__le__", v, hi)):
                return n
        return 4
    for n, hi in ((1, 255), (2, 65535)):
        if I.truth(I.compare("__le__", v, hi)):
            return n
    return 4


def le_bytes(v, n):
    """The n little-endian bytes of v (two's complement)."""
    return list(lib.B.byte_units(v, n))


def where_of(cls, meth):
    f = cls.lookup(meth)
    f = getattr(f, "fn", f)
    nd = getattr(f, "node", None)
    if nd is None:
        return None
    return (f.mod.path, nd.lineno)


int_of = lib.int_of


# Cases are given for one direction; each is analysed in one of three that follow from it.
DIRS = ("Input", "Output", "Feature")
TURN = [0]


def turned(n):
    """The direction or item name in the turn of this case."""
    return DIRS[(DIRS.index(n) + TURN[0]) % 3] if n in DIRS else n


def facing(way):
    return attr(get("hrdc.descriptor:Value"), turned(way))
