"""HID 1.11 tables the checks compare against (Device Class Definition for
HID 1.11, sections 6.2.2.4 to 6.2.2.8)."""

MAIN, GLOBAL, LOCAL = 0, 1, 2

# class name -> (kind, tag, signed)
ITEMS = {
    "Input": (0, 0x8, False), "Output": (0, 0x9, False), "Feature": (0, 0xb, False),
    "Collection": (0, 0xa, False), "EndCollection": (0, 0xc, False),
    "UsagePage": (1, 0x0, False), "LogicalMinimum": (1, 0x1, True), "LogicalMaximum": (1, 0x2, True),
    "PhysicalMinimum": (1, 0x3, True), "PhysicalMaximum": (1, 0x4, True), "UnitExponent": (1, 0x5, True),
    "Unit": (1, 0x6, False), "ReportSize": (1, 0x7, False), "ReportID": (1, 0x8, False),
    "ReportCount": (1, 0x9, False), "Push": (1, 0xa, False), "Pop": (1, 0xb, False),
    "Usage": (2, 0x0, False), "UsageMinimum": (2, 0x1, False), "UsageMaximum": (2, 0x2, False),
    "DesignatorIndex": (2, 0x3, False), "DesignatorMinimum": (2, 0x4, False), "DesignatorMaximum": (2, 0x5, False),
    "StringIndex": (2, 0x7, False), "StringMinimum": (2, 0x8, False), "StringMaximum": (2, 0x9, False),
    "Delimiter": (2, 0xa, False),
}
BY_CODE = {(k, t): n for n, (k, t, s) in ITEMS.items()}
FLAG_ITEMS = ("Input", "Output", "Feature")
NO_VALUE = ("EndCollection", "Push", "Pop")

FLAGS = {
    "Data": 0, "Constant": 1, "Array": 0, "Variable": 2, "Absolute": 0, "Relative": 4, "NoWrap": 0, "Wrap": 8,
    "Linear": 0, "NonLinear": 16, "PreferredState": 0, "NoPreferred": 32, "NoNullPosition": 0, "NullState": 64,
    "NonVolatile": 0, "Volatile": 128, "BitField": 0, "BufferedBytes": 256,
}
FLAG_NAMES = ["Constant", "Variable", "Relative", "Wrap", "NonLinear", "NoPreferred", "NullState", "Volatile", "BufferedBytes"]
COLLECTIONS = {"Physical": 0, "Application": 1, "Logical": 2, "Report": 3, "NamedArray": 4, "UsageSwitch": 5,
               "UsageModifier": 6}


def unit(system, length=0, mass=0, time=0, temperature=0, current=0, luminous=0):
    v = system
    for i, e in enumerate((length, mass, time, temperature, current, luminous)):
        v |= (e & 0xf) << (4 * (i + 1))
    return v


UNITS = {
    "SILinear": 1, "SIRotation": 2, "EnglishLinear": 3, "EnglishRotation": 4,
    "Centimeter": unit(1, length=1), "Radian": unit(2, length=1), "Inch": unit(3, length=1),
    "Degree": unit(4, length=1), "Gram": unit(1, mass=1), "Slug": unit(3, mass=1), "Second": unit(0, time=1),
    "Kelvin": unit(1, temperature=1), "Fahrenheit": unit(3, temperature=1), "Ampere": unit(0, current=1),
    "Candela": unit(0, luminous=1), "CmPerSec": unit(1, length=1, time=-1),
    "Momentum": unit(1, length=1, mass=1, time=-1), "G": unit(1, length=1, time=-2),
    "Newton": unit(1, length=1, mass=1, time=-2), "Joule": unit(1, length=2, mass=1, time=-2),
    "Volt": unit(1, length=2, mass=1, time=-3, current=-1),
}
NIBBLES = {"length": 1, "mass": 2, "time": 3, "temperature": 4, "current": 5, "luminousintensity": 6}
