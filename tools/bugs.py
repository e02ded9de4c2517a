"""The planted bugs: each written from a property and the code, see plant.py."""
BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append({"id": id, "property": property, "needs": needs, "what_it_breaks": what, "edits": edits, "demo": demo})


HELP = '''
import io
from hrdc.stream import item, optimizer, parser, formatter
from hrdc.descriptor import *
from hrdc.descriptor import streamer, extractor, dumper, descriptor
from hrdc.usage import *
import hrdc.usage as usage

class Sink:
    def __init__(self):
        self.items = []
        self.closed = 0
    def append(self, i):
        self.items.append(i)
    def close(self):
        self.closed += 1

def compiled(d, opt=False):
    s = Sink()
    o = optimizer.Optimizer.new(s) if opt else s
    d.accept(streamer.Streamer(o))
    o.close()
    return s.items

def optimized(items):
    s = Sink()
    o = optimizer.Optimizer.new(s)
    for i in items:
        o.append(i)
    o.close()
    return s.items

def flat(items):
    return [(type(i).__name__, int(i.value)) for i in items]
'''
I, S, O, D = "hrdc/stream/item.py", "hrdc/stream/", "hrdc/stream/optimizer/", "hrdc/descriptor/"

bug("b01", "C01", "a signed item whose value needs four bytes and is negative", "four-byte signed payloads are read as unsigned, so large negative bounds come back as large positive ones",
    [(I, "        if itemclass.signed:\n            format = format.lower()", "        if itemclass.signed and size < 3:\n            format = format.lower()")],
    HELP + '''
for v in (-100000, -1 << 31, 70000, -5, 300):
    assert int(item.Item.parse(item.LogicalMinimum(v).bytes()).value) == v, v
''')
bug("b02", "C02", "a signed value at a power of two below zero (-128, -32768)", "the most negative value of a size class is written one size too large",
    [(I, "            m = - m - 1\n", "            m = - m\n")],
    HELP + '''
assert len(item.LogicalMinimum(-128).bytes()) == 2
assert len(item.PhysicalMinimum(-32768).bytes()) == 3
assert len(item.PhysicalMinimum(-127).bytes()) == 2
''')
bug("b03", "C03", "a unit with a negative exponent of a dimension", "negative dimension exponents are coded as sign and magnitude, not as the two's complement nibble HID wants",
    [(I, "        val += 0x10\n", "        val = 0x8 | -val\n")],
    HELP + '''
assert int(item.Unit.CmPerSec) == 0xf011
assert int(item.Unit.Volt) == 0x00f0d121
''')
bug("b04", "C04", "a descriptor cut inside the payload of its last item", "a truncated last item is completed with zeroes instead of being refused",
    [(I, "            value = struct.unpack(format, data[1:])[0]", "            value = struct.unpack_from(format, data.ljust(5, b\"\\0\"), 1)[0]")],
    HELP + '''
for blob in (b"\\x75", b"\\x75\\x08\\x26\\xff", b"\\x67\\x01\\x02\\x03"):
    s = Sink()
    try:
        parser.Parser.get("binary")(io.BytesIO(blob), s).read()
    except Exception:
        continue
    sys.exit("truncated %r accepted as %s" % (blob, flat(s.items)))
''')
bug("b05", "C05", "a hex text whose last byte is the last character", "a hex byte at the very end of the text is not seen",
    [(S + "parser/hex.py", "{2}\\b\"", "{2}[\\s,]\"")],
    HELP + '''
for t in ("75 08", "0x75, 0x08", "75 08\\n"):
    s = Sink()
    parser.Parser.get("hex")(io.StringIO(t), s).read()
    assert flat(s.items) == [("ReportSize", 8)], t
''')
bug("b06", "C06", "a listing with more ends of collections than collections", "only a listing with open collections warns when closed, one with too many ends does not",
    [(S + "formatter/code.py", "        if self.indent != 0:", "        if self.indent > 0:")],
    HELP + '''
import warnings
for its, n in (([item.EndCollection()], 1), ([item.Collection(1)], 1), ([item.Collection(1), item.EndCollection()], 0)):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        f = formatter.Formatter.get("code")(io.StringIO())
        for i in its:
            f.append(i)
        f.close()
    assert len(w) == n, its
''')
bug("b07", "C07", "neighbouring fields alike except for their unit exponent", "fields with different unit exponents are merged into one main item",
    [(O + "main_merge.py", "        GlobalItem.UnitExponent,\n", "")],
    HELP + '''
L = [item.Collection(1), item.LogicalMinimum(0), item.LogicalMaximum(9), item.ReportSize(8), item.ReportCount(1),
     item.Usage(0x10030), item.UnitExponent(1), item.Input(2), item.Usage(0x10031), item.UnitExponent(2), item.Input(2), item.EndCollection()]
out = flat(optimized(L))
exp, got = 0, []
for n, v in out:
    if n == "UnitExponent":
        exp = v
    if n == "ReportCount":
        count = v
    if n == "Input":
        got += [exp] * count
assert got == [1, 2], got
''')
bug("b08", "C07", "exactly three consecutive usages in one main item", "three consecutive usages are written as the first and the last one only",
    [(O + "range_merge.py", "int(self.maxValue) - int(self.minValue) > 1", "int(self.maxValue) - int(self.minValue) > 2")],
    HELP + '''
L = [item.Collection(1), item.LogicalMinimum(0), item.LogicalMaximum(1), item.ReportSize(1), item.ReportCount(3),
     item.Usage(0x90001), item.Usage(0x90002), item.Usage(0x90003), item.Input(2), item.EndCollection()]
got, lo = [], 0
for n, v in flat(optimized(L)):
    if n == "Usage":
        got.append(v & 0xffff)
    if n == "UsageMinimum":
        lo = v & 0xffff
    if n == "UsageMaximum":
        got += range(lo, (v & 0xffff) + 1)
assert got == [1, 2, 3], got
''')
bug("b09", "C08", "a report id stated again after a collection ended", "after the end of a collection the report id in force is stated again",
    [(O + "global_merge.py", "            self.locals = {}\n            self.stream.append(item)", "            self.locals = {}\n            if int(item.tag) == 0xc:\n                self.globals.pop(GlobalItem.ReportID, None)\n            self.stream.append(item)")],
    HELP + '''
F = lambda u: Value(Value.Input, u, 8, logicalMin=0, logicalMax=9)
d = TopLevel(Collection(Collection.Application, 0x10001, Report(1, Collection(Collection.Logical, 0x10002, F(0x10030))), Report(1, F(0x10032), Value(Value.Output, 0x10031, 8, logicalMin=0, logicalMax=9))))
n = [v for k, v in flat(compiled(d, True)) if k == "ReportID"]
assert n == [1], n
''')
bug("b10", "C09", "a physical range that shares only its maximum with the logical one", "a physical minimum is dropped when the maxima agree",
    [(D + "streamer.py", "                elif e.physicalMin == e.logicalMin and e.physicalMax == e.logicalMax:", "                elif e.physicalMax == e.logicalMax:")],
    HELP + '''
d = TopLevel(Collection(Collection.Application, 0x10001, Value(Value.Input, 0x10030, 8, logicalMin=0, logicalMax=100, physicalMin=-100, physicalMax=100)))
assert ("PhysicalMinimum", -100) in flat(compiled(d))
''')
bug("b11", "C09", "a field with a unit exponent but no unit, or one after another with both", "the unit exponent is only stated along with a unit",
    [(D + "streamer.py", "                a(item.Unit(e.unit))\n                a(item.UnitExponent(e.unitExponent))", "                a(item.Unit(e.unit))\n                if int(e.unit):\n                    a(item.UnitExponent(e.unitExponent))")],
    HELP + '''
F = lambda **k: Value(Value.Input, 0x10030, 8, logicalMin=0, logicalMax=100, **k)
d = TopLevel(Collection(Collection.Application, 0x10001, F(unit=Unit.Gram, unitExponent=2), F(), F(unitExponent=-3)))
e, got = 0, []
for n, v in flat(compiled(d)):
    if n == "UnitExponent":
        e = v
    if n == "Input":
        got.append(e)
assert got == [2, 0, -3], got
''')
bug("b12", "C10", "an alignment that is not a power of two", "padding is computed with a mask that only fits powers of two",
    [(D + "streamer.py", "            partial = current_size % align\n            pad = (align - partial) if partial else 0", "            pad = -current_size & (align - 1)")],
    HELP + '''
for first in range(1, 9):
    for al in range(1, 9):
        d = TopLevel(Collection(Collection.Application, 0x10001, Padding(Value.Input, first), Align(Value.Input, al)))
        n = sum(v for k, v in flat(compiled(d)) if k == "ReportSize")
        assert n % al == 0 and n - first < al, (first, al, n)
''')
bug("b13", "C11", "a collection holding several reports between fields of one report", "a field after a collection with several reports is moved before it",
    [(D + "extractor.py", "                currentReport = None\n                r.append(self.reportInsert(value))", "                r.append(self.reportInsert(value))")],
    HELP + '''
F = lambda i, u: [item.ReportID(i), item.Usage(u), item.Input(2)]
L = [item.LogicalMinimum(0), item.LogicalMaximum(9), item.ReportSize(8), item.ReportCount(1), item.Usage(0x10001), item.Collection(1)] + F(1, 0x10030) \\
    + [item.Usage(0x10002), item.Collection(2)] + F(1, 0x10031) + F(2, 0x10032) + [item.EndCollection()] + F(1, 0x10033) + [item.EndCollection()]
x = extractor.Extractor()
for i in L:
    x.append(i)
x.close()
got = []
class V(descriptor.Visitor):
    def element(self, e):
        got.append(int(e.usage))
x.root.accept(V())
assert got == [0x10030, 0x10031, 0x10032, 0x10033], list(map(hex, got))
''')
bug("b14", "C12", "a field one of whose physical bounds equals the logical one", "the dumped script loses the physical range when one of its bounds equals the logical one",
    [(D + "dumper.py", "                if e.physicalMin != e.logicalMin or e.physicalMax != e.logicalMax:", "                if e.physicalMin != e.logicalMin and e.physicalMax != e.logicalMax:")],
    HELP + '''
d = TopLevel(Collection(Collection.Application, 0x10001, Value(Value.Input, 0x10030, 8, logicalMin=0, logicalMax=255, physicalMin=0, physicalMax=100)))
f = io.StringIO()
d.accept(dumper.Dumper(f))
ns = {"__name__": "x"}
exec(f.getvalue(), ns)
assert flat(compiled(ns["descriptor"])) == flat(compiled(d))
''')
bug("b15", "C15", "a list of usages with a gap between its second and third element", "only every other pair of neighbours is tested for being consecutive",
    [("hrdc/usage/usage.py", "zip(arr, arr[1:])", "zip(arr[::2], arr[1::2])")],
    HELP + '''
def ok(a):
    try:
        UsageRange.from_array(a)
        return True
    except ValueError:
        return False
assert ok([1, 2]) and ok([1, 2, 3]) and ok([4, 5, 6, 7])
assert not ok([1, 2, 4]) and not ok([1, 2, 8, 9]) and not ok([1, 3])
''')
bug("b16", "C16", "a field with only one physical bound given", "a missing physical bound follows the logical one although the other was given",
    [(D + "descriptor.py", "            self.physicalMin = physicalMin or 0\n", "            self.physicalMin = physicalMin or logicalMin\n")],
    HELP + '''
v = Value(Value.Input, 0x10030, 8, logicalMin=-5, logicalMax=5, physicalMax=100)
assert v.physicalMin == 0 and v.physicalMax == 100, v.physicalMin
''')
bug("b17", "C17", "one value object used at two places of a container", "a member that is in a container twice is visited once",
    [(D + "descriptor.py", "        for m in self.members:\n            m.accept", "        for m in dict.fromkeys(self.members):\n            m.accept")],
    HELP + '''
p = Padding(Value.Input, 4)
d = TopLevel(Collection(Collection.Application, 0x10001, p, Value(Value.Input, 0x10030, 4, logicalMin=0, logicalMax=9), p))
n = [k for k, v in flat(compiled(d)) if k == "Input"]
assert len(n) == 3, n
''')
bug("b18", "C18", "compiling to the code format with optimization", "the compiler does not optimize listings",
    [(D + "compiler.py", "    if not args.no_optimize:", "    if not args.no_optimize and args.output_format != \"code\":")],
    HELP + '''
import contextlib
F = lambda u: Value(Value.Input, u, 8, logicalMin=0, logicalMax=9)
d = TopLevel(Collection(Collection.Application, 0x10001, F(0x10030), F(0x10031)))
want = [" ".join("0x%02x," % x for x in i.bytes()) for i in compiled(d, True)]
sys.argv = ["x", "-o", "code"]
out = io.StringIO()
with contextlib.redirect_stdout(out):
    compile_main(d)
got = [l.split("//")[0].strip() for l in out.getvalue().splitlines()]
assert got == want, got
''')
bug("b19", "C19", "two descriptors compiled in one process, the first leaving a report unaligned", "the bit offsets of a compiler run are kept for the next one",
    [(D + "streamer.py", '''    def __init__(self, stream):
        self.stream = stream
        self.report_size = {
            int(item.MainItem.Input) : [0] * 256,
            int(item.MainItem.Output) : [0] * 256,
            int(item.MainItem.Feature) : [0] * 256,
            }
''', '''    report_size = {
        int(item.MainItem.Input) : [0] * 256,
        int(item.MainItem.Output) : [0] * 256,
        int(item.MainItem.Feature) : [0] * 256,
        }

    def __init__(self, stream):
        self.stream = stream
''')],
    HELP + '''
d = TopLevel(Collection(Collection.Application, 0x10001, Value(Value.Input, 0x10030, 8, logicalMin=0, logicalMax=9), Padding(Value.Input, 3)))
a = flat(compiled(d))
b = flat(compiled(d))
assert a == b
''')
bug("b20", "C19", "looking up a usage code that is not in the tables, then defining it", "a lookup of an unknown usage enters it in the registry",
    [("hrdc/usage/usage.py", "        return cls(hex(int(value)), int(value), register = False)", "        return cls(hex(int(value)), int(value))")],
    HELP + '''
n = len(Usage.reverse)
Usage.lookup(0xff001234)
s = Sink()
parser.Parser.get("binary")(io.BytesIO(bytes([0x06, 0x34, 0xff, 0x09, 0x77, 0xa1, 0x01, 0xc0])), s).read()
assert len(Usage.reverse) == n
''')
bug("b21", "C20", "output that stops before the end of the expected listing", "the comparison passes when the output is shorter than expected",
    [(S + "comparer.py", "        self.test_case.assertEqual(self.point, len(self.expected))", "        self.test_case.assertLessEqual(self.point, len(self.expected))")],
    HELP + '''
import unittest
from hrdc.stream.comparer import ExpectedStream
class T(unittest.TestCase):
    def runTest(self):
        pass
def verdict(text, *its):
    e = ExpectedStream(T(), text)
    try:
        for i in its:
            e.append(i)
        e.close()
        return True
    except AssertionError:
        return False
assert verdict("0x75, 0x08,", item.ReportSize(8))
assert not verdict("0x75, 0x08, 0xc0", item.ReportSize(8))
assert not verdict("0x75, 0x08", item.ReportSize(9))
''')
bug("b22", "C14", "a named constant with a value above 16 bits shifted by less than 16", "right shifts lose everything above 16 bits",
    [("hrdc/util/named_constant.py", "            return self.value >> int(other)\n", "            return (self.value >> int(other)) & 0xffff\n")],
    HELP + '''
from hrdc.util import NamedConstant
assert NamedConstant("a", 0x12345678) >> 4 == 0x1234567
assert NamedConstant("a", 0x12345678) >> 16 == 0x1234
''')

bug("b23", "C07", "neighbouring fields of different reports, otherwise alike", "fields of different report ids are merged into one main item",
    [(O + "main_merge.py", "        GlobalItem.ReportSize,\n        GlobalItem.ReportID,\n", "        GlobalItem.ReportSize,\n")],
    HELP + '''
L = [item.Collection(1), item.LogicalMinimum(0), item.LogicalMaximum(9), item.ReportSize(8), item.ReportCount(1),
     item.ReportID(1), item.Usage(0x10030), item.Input(2), item.ReportID(2), item.Usage(0x10031), item.Input(2), item.EndCollection()]
rid, got, count = 0, [], 0
for n, v in flat(optimized(L)):
    if n == "ReportID":
        rid = v
    if n == "ReportCount":
        count = v
    if n == "Input":
        got += [rid] * count
assert got == [1, 2], got
''')
bug("b24", "C08", "three or more neighbouring fields with consecutive usages", "usages are merged into ranges before fields are, so that merged fields keep single usages",
    [(O + "range_merge.py", "class UsageMerge(RangeMerge):\n    precedence = 20", "class UsageMerge(RangeMerge):\n    precedence = 65")],
    HELP + '''
F = lambda u: Value(Value.Input, u, 8, logicalMin=0, logicalMax=9)
d = TopLevel(Collection(Collection.Application, 0x10001, *[F(0x10030 + i) for i in range(4)]))
out = [k for k, v in flat(compiled(d, True))]
assert out.count("UsageMinimum") == 1 and out.count("Input") == 1, out
''')
bug("b25", "C09", "a field of count one after a field with a greater count", "the count of a single field is not stated, so that it takes the one of the field before",
    [(D + "streamer.py", "            a(item.ReportCount(e.count))\n", "            if e.count > 1:\n                a(item.ReportCount(e.count))\n")],
    HELP + '''
d = TopLevel(Collection(Collection.Application, 0x10001, Value(Value.Input, 0x10030, 8, logicalMin=0, logicalMax=9, count=3), Value(Value.Input, 0x10031, 8, logicalMin=0, logicalMax=9)))
c, got = 0, []
for n, v in flat(compiled(d)):
    if n == "ReportCount":
        c = v
    if n == "Input":
        got.append(c)
assert got == [3, 1], got
''')
bug("b26", "C10", "an explicit padding followed by an aligned value", "padding does not advance the offset",
    [(D + "streamer.py", "            self.report_size[int(e.way)][self.report_id] += pad\n", "            if align:\n                self.report_size[int(e.way)][self.report_id] += pad\n")],
    HELP + '''
d = TopLevel(Collection(Collection.Application, 0x10001, Padding(Value.Input, 3), Align(Value.Input, 8)))
n = sum(v for k, v in flat(compiled(d)) if k == "ReportSize")
assert n == 8, n
''')
bug("b27", "C11", "a field with a string index followed by one without", "string indices are not forgotten after a main item",
    [(D + "extractor.py", "        self.usages = []\n        self.strings = []\n", "        self.usages = []\n"), (D + "extractor.py", "        self.globalsStack = []\n        self.localsClear()\n", "        self.globalsStack = []\n        self.strings = []\n        self.localsClear()\n")],
    HELP + '''
L = [item.LogicalMinimum(0), item.LogicalMaximum(9), item.ReportSize(8), item.ReportCount(1), item.Usage(0x10001), item.Collection(1),
     item.Usage(0x10030), item.StringIndex(4), item.Input(2), item.Usage(0x10031), item.Input(2), item.EndCollection()]
x = extractor.Extractor()
for i in L:
    x.append(i)
got = []
class V(descriptor.Visitor):
    def element(self, e):
        got.append(int(e.string))
x.root.accept(V())
assert got == [4, 0], got
''')
bug("b28", "C12", "a field of more than one bit with alignment 1", "an explicit alignment to single bits is not written to the script",
    [(D + "dumper.py", "            if e.alignment != None and e.alignment != auto_alignment:", "            if (e.alignment or 1) > 1 and e.alignment != auto_alignment:")],
    HELP + '''
d = TopLevel(Collection(Collection.Application, 0x10001, Padding(Value.Input, 3), Value(Value.Input, 0x10030, 8, logicalMin=0, logicalMax=9, alignment=1)))
f = io.StringIO()
d.accept(dumper.Dumper(f))
ns = {"__name__": "x"}
exec(f.getvalue(), ns)
assert flat(compiled(ns["descriptor"])) == flat(compiled(d))
''')
bug("b29", "C12", "a unit the library has no name for", "the script of a field with an unnamed unit does not evaluate",
    [(D + "dumper.py", "                unit = re.sub(r\"([A-Za-z]+)\", r\"Unit.\\1\", str(e.unit))", "                unit = re.sub(r\"(\\w+)\", r\"Unit.\\1\", str(e.unit))")],
    HELP + '''
for u in (0x1234, Unit.Gram):
    d = TopLevel(Collection(Collection.Application, 0x10001, Value(Value.Input, 0x10030, 8, logicalMin=0, logicalMax=9, unit=u)))
    f = io.StringIO()
    d.accept(dumper.Dumper(f))
    ns = {"__name__": "x"}
    exec(f.getvalue(), ns)
    assert flat(compiled(ns["descriptor"])) == flat(compiled(d))
''')
bug("b30", "C16", "a named array whose logical minimum is not 1", "the logical maximum of a named array is its length, whatever the logical minimum",
    [(D + "descriptor.py", "            self.logicalMax = len(self.namedArray) + self.logicalMin - 1", "            self.logicalMax = len(self.namedArray)")],
    HELP + '''
v = Value(Value.Input, None, 8, logicalMin=0, namedArray=[0x70004, 0x70005])
assert v.logicalMax == 1, v.logicalMax
''')
bug("b31", "C18", "converting with optimization something only the later passes improve", "the converter runs half of the optimizer passes",
    [("hrdc/converter.py", "        stream = optimizer.Optimizer.new(stream)", "        stream = optimizer.Optimizer.new(stream, 0, 50)")],
    HELP + '''
import tempfile, os, hrdc.converter
L = [item.Usage(0x10001), item.Collection(1), item.LogicalMinimum(0), item.LogicalMaximum(9), item.ReportSize(8), item.ReportCount(1)]
for u in range(4):
    L += [item.Usage(0x10030 + u), item.Input(2)]
L.append(item.EndCollection())
with tempfile.TemporaryDirectory() as t:
    a, b = os.path.join(t, "a"), os.path.join(t, "b")
    open(a, "w").write(" ".join(i.bytes().hex(" ") for i in L))
    sys.argv = ["x", "-i", "hex", "-o", "hex", "-O", a, b]
    hrdc.converter._main()
    import gc
    gc.collect()
    s = Sink()
    parser.Parser.get("hex")(io.StringIO(open(b).read()), s).read()
assert flat(s.items) == flat(optimized(L)) or [k for k, v in flat(s.items)].count("Input") == 1, flat(s.items)
''')
bug("b32", "C19", "two optimizer runs in one process whose streams state the same globals", "the globals in force of one stream are taken for those of the next",
    [(O + "global_merge.py", '''    def __init__(self, stream):
        from ..item import Item, GlobalItem, Unit, UnitExponent, \\
             PhysicalMinimum, PhysicalMaximum, \\
             LogicalMinimum, LogicalMaximum

        self.stream = stream
        self.locals = {}
        self.globals = {
''', '''    globals = {}

    def __init__(self, stream):
        from ..item import Item, GlobalItem, Unit, UnitExponent, \\
             PhysicalMinimum, PhysicalMaximum, \\
             LogicalMinimum, LogicalMaximum

        self.stream = stream
        self.locals = {}
        self.globals.update({
'''), (O + "global_merge.py", "            GlobalItem.PhysicalMaximum: PhysicalMaximum(0),\n            }\n", "            GlobalItem.PhysicalMaximum: PhysicalMaximum(0),\n            })\n")],
    HELP + '''
d = TopLevel(Collection(Collection.Application, 0x10001, Value(Value.Input, 0x10030, 8, logicalMin=0, logicalMax=9)))
assert flat(compiled(d, True)) == flat(compiled(d, True))
''')
bug("b33", "C06", "a physical collection", "physical collections do not indent what they hold, and a balanced listing with one warns",
    [(S + "formatter/code.py", "        if isinstance(i, item.Collection):\n", "        if isinstance(i, item.Collection) and int(i.value):\n")],
    HELP + '''
f = io.StringIO()
c = formatter.Formatter.get("code")(f)
for i in (item.Collection(0), item.ReportSize(8), item.EndCollection()):
    c.append(i)
c.close()
l = [x.split("//")[1] for x in f.getvalue().splitlines()]
assert [len(x) - len(x.lstrip()) for x in l] == [1, 5, 1], l
''')
bug("b34", "C03", "a field with a null state or without preferred state", "the flags for null state and no preferred state are exchanged",
    [(I, '    NoPreferred = NamedConstant("NoPreferred", 32)', '    NoPreferred = NamedConstant("NoPreferred", 64)'), (I, '    NullState = NamedConstant("NullState", 64)', '    NullState = NamedConstant("NullState", 32)')],
    HELP + '''
assert int(Value.NoPreferred) == 32 and int(Value.NullState) == 64
''')
bug("b35", "C02", "a value of 65535 or 32767", "the greatest value of two bytes is written with four",
    [(I, "            bits = int(math.log(m, 2)) + int(self.signed) + 1", "            bits = int(math.log(m + (m > 255), 2)) + int(self.signed) + 1")],
    HELP + '''
assert len(item.ReportCount(65535).bytes()) == 3
assert len(item.LogicalMaximum(32767).bytes()) == 3
assert len(item.LogicalMaximum(300).bytes()) == 3
''')
bug("b36", "C04", "a descriptor with a reserved or long item", "items with an unknown prefix are skipped",
    [(S + "parser/base.py", "        self.append(item.Item.parse(data))", "        try:\n            i = item.Item.parse(data)\n        except KeyError:\n            return\n        self.append(i)")],
    HELP + '''
for blob in (b"\\x75\\x08\\xd1\\x02\\xc0", b"\\xfe\\x01\\x10\\x00"):
    s = Sink()
    try:
        parser.Parser.get("binary")(io.BytesIO(blob), s).read()
    except Exception:
        continue
    sys.exit("unknown item in %r skipped" % blob)
''')
bug("b37", "C14", "inverting a named constant", "the inverse of a named constant is cut to 32 bits",
    [("hrdc/util/named_constant.py", "        return ~int(self)\n", "        return ~int(self) & 0xffffffff\n")],
    HELP + '''
from hrdc.util import NamedConstant
assert ~NamedConstant("a", 5) == -6
''')
bug("b38", "C20", "output that goes on after the end of the expected listing", "items after the end of the listing are not compared",
    [(S + "comparer.py", "        self.test_case.assertEqual(expected, part)\n        self.point += len(part)", "        self.test_case.assertEqual(expected, part[:len(expected)])\n        self.point += len(expected)")],
    HELP + '''
import unittest
from hrdc.stream.comparer import ExpectedStream
class T(unittest.TestCase):
    def runTest(self):
        pass
e = ExpectedStream(T(), "0x75, 0x08,")
try:
    e.append(item.ReportSize(8))
    e.append(item.EndCollection())
    e.close()
except AssertionError:
    sys.exit(0)
sys.exit("longer output passed")
''')
bug("b39", "C15", "a list with a single usage", "a single usage is accepted as a range",
    [("hrdc/usage/usage.py", "        if len(arr) < 2:\n", "        if not arr:\n")],
    HELP + '''
try:
    UsageRange.from_array([0x70004])
except ValueError:
    sys.exit(0)
sys.exit("accepted")
''')

bug("b40", "C13", "a lookup of the code of one camera usage", "two usages of the camera page have the same code, and the second is lost",
    [("hrdc/usage/camera.py", "0x900020", "0x900021")],
    HELP + """
from hrdc.usage import camera
assert int(camera.Autofocus) == 0x900020 and int(camera.Shutter) == 0x900021
assert Usage.lookup(0x900021).name == "camera.Shutter"
""")
bug("b41", "C02", "an unsigned global item (report count, size or id, usage page) with the top bit of its size in use", "unsigned global items reserve a sign bit, so 128 to 255 take two bytes",
    [(I, "            bits = int(math.log(m, 2)) + int(self.signed) + 1", "            bits = int(math.log(m, 2)) + int(self.kind == self.Global) + 1")],
    HELP + """
for c, v, n in ((item.ReportCount, 200, 2), (item.ReportSize, 255, 2), (item.ReportID, 128, 2), (item.ReportCount, 40000, 3), (item.LogicalMaximum, 128, 3), (item.Usage, 128, 2)):
    assert len(c(v).bytes()) == n, (c, v)
""")
bug("b42", "C10", "a report ID above 127 together with one 128 below it", "the sizes of reports 128 to 255 are added to those of reports 0 to 127, and alignment of both goes wrong",
    [(D + "streamer.py", "            self.report_id = e.id\n", "            self.report_id = e.id & 0x7f\n")],
    HELP + """
def pads(i):
    r = lambda n, *m: Report(n, *m)
    d = TopLevel(Collection(Collection.Application, 0x10001, r(1, Value(Value.Input, 0x10030, 3, logicalMin=0, logicalMax=1)),
                            r(i, Value(Value.Input, 0x10031, 8, logicalMin=0, logicalMax=1))))
    return [k for k, v in flat(compiled(d))].count("Input")
assert pads(129) == pads(130) == 2, (pads(129), pads(130))
""")
bug("b43", "C12", "a field that repeats 65536 times or more", "the count of a large field is cut to sixteen bits in the dump",
    [(D + "dumper.py", 'self.write(", count = %d" % e.count)', 'self.write(", count = %d" % (e.count & 0xffff))')],
    HELP + """
v = Value(Value.Input, 0x10030, 1, logicalMin=0, logicalMax=1, count=65538)
d = TopLevel(Collection(Collection.Application, 0x10001, v))
f = io.StringIO()
d.accept(dumper.Dumper(f))
assert "count = 65538" in f.getvalue(), f.getvalue()
""")
bug("b44", "C14", "two named constants with the same name and different numbers", "constants of the same name compare equal whatever their numbers",
    [("hrdc/util/named_constant.py", "        return int(self) == int(other)", "        if isinstance(other, NamedConstant) and other.name == self.name:\n            return True\n        return int(self) == int(other)")],
    HELP + """
from hrdc.util import NamedConstant
assert NamedConstant("a", 1) != NamedConstant("a", 2)
assert NamedConstant("a", 1) == NamedConstant("b", 1)
""")
bug("b45", "C17", "the same node twice among the members of one parent", "a member that stands twice is visited once",
    [(D + "descriptor.py", "        for m in self.members:\n            m.accept(visitor)", "        for m in dict.fromkeys(self.members):\n            m.accept(visitor)")],
    HELP + """
v = Value(Value.Input, 0x10030, 8, logicalMin=0, logicalMax=1)
d = TopLevel(Collection(Collection.Application, 0x10001, v, v))
assert [k for k, _ in flat(compiled(d))].count("Input") == 2
""")
bug("b46", "C18", "a descriptor longer than 4096 bytes", "the decompiler reads the first 4096 characters of its input",
    [(D + "extractor.py", "    p = _parser(args.input, extractor)\n    p.read()", "    p = _parser(args.input, extractor)\n    p.read(4096)")],
    HELP + """
import tempfile, os, contextlib
def dump(n):
    L = [item.UsagePage(1), item.Usage(1), item.Collection(1)]
    for u in range(n):
        L += [item.Usage(0x30), item.LogicalMinimum(0), item.LogicalMaximum(u % 120), item.ReportSize(8), item.ReportCount(1), item.Input(2)]
    L.append(item.EndCollection())
    with tempfile.TemporaryDirectory() as t:
        a, b = os.path.join(t, "a"), os.path.join(t, "b")
        open(a, "wb").write(b"".join(i.bytes() for i in L))
        sys.argv = ["x", "-i", "binary", a, b]
        extractor.main()
        import gc
        gc.collect()
        return open(b).read()
for n in (3, 1200):
    assert dump(n).count("Value(") == n, (n, dump(n).count("Value("))
""")
bug("b47", "C20", "an expected listing with a word that is no byte", "words of the listing are cut to eight bits, so a listing that cannot be right passes",
    [(S + "comparer.py", "bytes(int(x, 16) for x", "bytes(int(x, 16) & 0xff for x")],
    HELP + """
import unittest
from hrdc.stream.comparer import ExpectedStream
class T(unittest.TestCase):
    def runTest(self):
        pass
try:
    e = ExpectedStream(T(), "0x175, 0x08,")
    e.append(item.ReportSize(8))
    e.close()
except Exception:
    sys.exit(0)
sys.exit("passed")
""")
bug("b48", "C09", "two fields without a unit, the first with a unit exponent, the second without", "the unit exponent is written only when there is a unit or an exponent, so a field without both keeps the exponent of the one before",
    [(D + "streamer.py", "                a(item.UnitExponent(e.unitExponent))", "                if e.unit or e.unitExponent:\n                    a(item.UnitExponent(e.unitExponent))")],
    HELP + """
v = lambda u, **k: Value(Value.Input, u, 8, logicalMin=0, logicalMax=1, **k)
L = flat(compiled(TopLevel(Collection(Collection.Application, 0x10001, v(0x10030, unitExponent=3), v(0x10031)))))
exp, got = 0, []
for k, x in L:
    if k == "UnitExponent":
        exp = int(x)
    elif k == "Input":
        got.append(exp)
assert got == [3, 0], got
""")
bug("b49", "C06", "a Push (or another item whose tag number is that of a collection) in a listing", "items with the tag number of a collection indent what follows, whatever their type",
    [(S + "formatter/code.py", "        if isinstance(i, item.Collection):", "        if i.tag == item.MainItem.Collection:")],
    HELP + """
from hrdc.stream.formatter.code import Code
f = io.StringIO()
c = Code(f)
for i in (item.Input(2), item.Push(), item.Input(2)):
    c.append(i)
import warnings
warnings.simplefilter("error")
c.close()
l = f.getvalue().splitlines()
assert l[0] == l[2], l
""")
bug("b50", "C17", "two containers built without members, one of them appended to later", "containers that start empty share their list of members",
    [(D + "descriptor.py", "        self.members = list(members)", "        self.members = list(members) if members else self.nothing"),
     (D + "descriptor.py", "class Hierarchical(Base):\n", "class Hierarchical(Base):\n    nothing = []\n\n")],
    HELP + """
a, b = Collection(Collection.Logical, 1), Collection(Collection.Physical, 2)
a.append(Value(Value.Input, 0x10030, 8, logicalMin=0, logicalMax=1))
assert len(a) == 1 and len(b) == 0
""")
bug("b51", "C15", "a list of more than 64 usages with a gap after the 64th", "a range is built from a long list without looking at its end",
    [("hrdc/usage/usage.py", "        for i, j in zip(arr, arr[1:]):", "        for i, j in zip(arr[:64], arr[1:64]):")],
    HELP + """
from hrdc.usage import UsageRange
l = [0x90001 + i for i in range(100)]
assert len(UsageRange.from_array(l)) == 100
l[80] += 5
try:
    UsageRange.from_array(l)
except ValueError:
    sys.exit(0)
sys.exit("accepted")
""")
bug("b52", "C11", "a range of more than 256 usages on one main item", "only the first 256 usages of a range are extracted, the other fields repeat the last one",
    [(D + "extractor.py", "range(int(self.locals[int(min)]), int(self.locals[int(max)] + 1)):", "range(int(self.locals[int(min)]), int(self.locals[int(max)] + 1))[:256]:")],
    HELP + """
x = extractor.Extractor()
for i in (item.UsagePage(9), item.LogicalMaximum(1), item.ReportSize(1), item.ReportCount(300), item.Usage(0x10001), item.Collection(1),
          item.UsageMinimum(1), item.UsageMaximum(300), item.Input(2), item.EndCollection()):
    x.append(i)
def leaves(e):
    for m in e:
        if isinstance(m, Value):
            yield int(m.usage)
        else:
            yield from leaves(m)
l = list(leaves(x.root))
assert l == [0x90001 + i for i in range(300)], l[250:]
""")
bug("b53", "C11", "one end of a usage range left over before a main item, and the other end before the next", "the ends of ranges live on after the main item they stand before",
    [(D + "extractor.py", "        self.locals = {}\n\n        for tag in", "        self.locals = getattr(self, 'locals', {})\n\n        for tag in"),
     (D + "extractor.py", "            self.locals[int(tag)] = None\n\n    def globalValue", "            self.locals.setdefault(int(tag), None)\n\n    def globalValue")],
    HELP + """
def second(*extra):
    x = extractor.Extractor()
    for i in (item.UsagePage(1), item.LogicalMaximum(1), item.ReportSize(1), item.ReportCount(1), item.Usage(2), item.Collection(1)) + extra + (
              item.Input(2), item.UsageMaximum(5), item.Usage(0x42), item.Input(2), item.EndCollection()):
        x.append(i)
    def leaves(e):
        for m in e:
            if isinstance(m, Value):
                yield m
            else:
                yield from leaves(m)
    return int(list(leaves(x.root))[1].usage)
assert second() == second(item.UsageMinimum(3)), (second(), second(item.UsageMinimum(3)))
""")
bug("b54", "C07", "a Feature item with a count of its own", "a Feature item is taken for a collection when fields are joined, so that the report count before it is dropped",
    [(O + "main_merge.py", "            if item.tag not in (MainItem.Input, MainItem.Output, MainItem.Feature):", "            if item.tag not in (MainItem.Input, MainItem.Output):")],
    HELP + """
src = [item.UsagePage(1), item.LogicalMaximum(1), item.ReportSize(1), item.ReportCount(1), item.Usage(0x30), item.Input(2),
       item.ReportCount(3), item.Usage(0x31), item.Feature(2)]
def counts(items):
    c = 0
    for n, v in flat(items):
        if n == "ReportCount":
            c = v
        elif n in ("Input", "Feature"):
            yield n, c
assert list(counts(src)) == list(counts(optimized(src))), flat(optimized(src))
""")
