From 63604f424b05cfba0e75ccf8b18c237470235637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:33 +0000
Subject: [PATCH 01/27] fix: refuse negative collection kinds

Collection(-1) was taken from the end of the table of known kinds and
encoded as UsageModifier.
---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index 5a5ad36..d47eea9 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -218,7 +218,7 @@ class Collection(MainItem):
     _rev = [Physical, Application, Logical, Report, NamedArray, UsageSwitch, UsageModifier]
 
     def __init__(self, value):
-        if not isinstance(value, NamedConstant) and int(value) < len(self._rev):
+        if not isinstance(value, NamedConstant) and 0 <= int(value) < len(self._rev):
             value = self._rev[int(value)]
         MainItem.__init__(self, value)
 
-- 
2.43.0


From 77b6f4601a699b1714c3c7c8418c291b474c5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:34 +0000
Subject: [PATCH 02/27] fix: name Unit.CmPerSec after its identifier

The dumper wrote Unit.Velocity, which does not exist.
---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index d47eea9..fc2da2b 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -295,7 +295,7 @@ class Unit(GlobalItem):
     Fahrenheit = NamedConstant("Fahrenheit", EnglishLinear | temperature(1))
     Ampere = NamedConstant("Ampere", current(1))
     Candela = NamedConstant("Candela", luminousintensity(1))
-    CmPerSec = NamedConstant("Velocity", SILinear | time(-1) | length(1))
+    CmPerSec = NamedConstant("CmPerSec", SILinear | time(-1) | length(1))
     Momentum = NamedConstant("Momentum", SILinear | time(-1) | length(1) | mass(1))
     G = NamedConstant("G", SILinear | time(-2) | length(1))
     Newton = NamedConstant("Newton", SILinear | time(-2) | length(1) | mass(1))
-- 
2.43.0


From 452ba5a9def15bdf6ce76811e029e0490a44e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:53 +0000
Subject: [PATCH 03/27] fix: name usages after their identifiers

The dumper writes usages by name; these names did not evaluate.
---
 hrdc/usage/desktop.py    | 6 +++---
 hrdc/usage/lighting.py   | 2 +-
 hrdc/usage/simulation.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 8798e7b..698e598 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -7,7 +7,7 @@ Gamepad = Usage("desktop.Gamepad", 0x10005, CA)
 Keyboard = Usage("desktop.Keyboard", 0x10006, CA)
 Keypad = Usage("desktop.Keypad", 0x10007, CA)
 MultiAxisCtrl = Usage("desktop.MultiAxisCtrl", 0x10008, CA)
-TabletPCSystem = Usage("desktop.TabletPcSystem", 0x10009, CA)
+TabletPCSystem = Usage("desktop.TabletPCSystem", 0x10009, CA)
 
 # HUTRR51
 PortableDeviceControl = Usage("desktop.PortableDeviceControl", 0x1000d, CA)
@@ -25,8 +25,8 @@ HatSwitch = Usage("desktop.HatSwitch", 0x10039, DV)
 CountedBuffer = Usage("desktop.CountedBuffer", 0x1003A, CL)
 ByteCount = Usage("desktop.ByteCount", 0x1003B, DV)
 MotionWakeup = Usage("desktop.MotionWakeup", 0x1003C, OSC)
-Start = Usage("desktop.start", 0x1003D, OOC)
-Select = Usage("desktop.select", 0x1003E, OOC)
+Start = Usage("desktop.Start", 0x1003D, OOC)
+Select = Usage("desktop.Select", 0x1003E, OOC)
 Vx = Usage("desktop.Vx", 0x10040, DV)
 Vy = Usage("desktop.Vy", 0x10041, DV)
 Vz = Usage("desktop.Vz", 0x10042, DV)
diff --git a/hrdc/usage/lighting.py b/hrdc/usage/lighting.py
index 0a0b05c..4229d8b 100644
--- a/hrdc/usage/lighting.py
+++ b/hrdc/usage/lighting.py
@@ -9,7 +9,7 @@ BoundingBoxWidthInMicrometers = Usage("lighting.BoundingBoxWidthInMicrometers",
 BoundingBoxHeightInMicrometers = Usage("lighting.BoundingBoxHeightInMicrometers", 0x590005, SV)
 BoundingBoxDepthInMicrometers = Usage("lighting.BoundingBoxDepthInMicrometers", 0x590006, SV)
 LampArrayKind = Usage("lighting.LampArrayKind", 0x590007, SV)
-MinUpdateIntervalInMicroseconds = Usage("lighting. MinUpdateIntervalInMicroseconds", 0x590008, SV)
+MinUpdateIntervalInMicroseconds = Usage("lighting.MinUpdateIntervalInMicroseconds", 0x590008, SV)
 LampAttributesRequestReport = Usage("lighting.LampAttributesRequestReport", 0x590020, CL)
 LampId = Usage("lighting.LampId", 0x590021, SV)
 LampAttributesResponseReport = Usage("lighting.LampAttributesResponseReport", 0x590022, CL)
diff --git a/hrdc/usage/simulation.py b/hrdc/usage/simulation.py
index 6595585..4146b65 100644
--- a/hrdc/usage/simulation.py
+++ b/hrdc/usage/simulation.py
@@ -20,7 +20,7 @@ FlightYoke = Usage("simulation.FlightYoke", 0x20024, CA)
 TrackControl = Usage("simulation.TrackControl", 0x20025, CP)
 Aileron = Usage("simulation.Aileron", 0x200B0, DV)
 AileronTrim = Usage("simulation.AileronTrim", 0x200B1, DV)
-AntiTorqueControl = Usage("simulation.TorqueControl", 0x200B2, DV)
+AntiTorqueControl = Usage("simulation.AntiTorqueControl", 0x200B2, DV)
 AutopilotEnable = Usage("simulation.AutopilotEnable", 0x200B3, OOC)
 ChaffRelease = Usage("simulation.ChaffRelease", 0x200B4, OSC)
 CollectiveControl = Usage("simulation.CollectiveControl", 0x200B5, DV)
-- 
2.43.0


From b49094aebc68a1b5e8b02e1c5ef3cf3cc4021284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:55 +0000
Subject: [PATCH 04/27] fix: code of desktop.SystemDisplayRotationLockButton

---
 hrdc/usage/desktop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 698e598..3827d46 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -81,7 +81,7 @@ WirelessRadioLed = Usage("desktop.WirelessRadioLed", 0x100c7, OOC)
 WirelessRadioSliderSwitch = Usage("desktop.WirelessRadioSliderSwitch", 0x100c8, OOC)
 
 # HUTRR52
-SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x1000C9, OOC)
+SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x100C9, OOC)
 SystemDisplayRotationLockSliderSwitch = Usage("desktop.SystemDisplayRotationLockSliderSwitch", 0x100CA, OOC)
 
 # HUTRR50
-- 
2.43.0


From 8733e008fd387431abb440053ea04c594b119124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:56 +0000
Subject: [PATCH 05/27] fix: count all elements of a value in the report size

A value with a count only advanced the report offset by one element, so
that whatever followed could be misaligned.
---
 hrdc/descriptor/streamer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index e9d70e3..5bf7511 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -89,7 +89,7 @@ class Streamer(descriptor.Visitor):
 
             a(item.ReportCount(e.count))
             a(item.ReportSize(e.size))
-            self.report_size[int(e.way)][self.report_id] += int(e.size)
+            self.report_size[int(e.way)][self.report_id] += int(e.size) * int(e.count)
             a(item.Item.itemclass(item.Item.Main, e.way)(e.flags))
 
             if e.namedArray and not constant and e.usage:
-- 
2.43.0


From 7d81aa8104cf1975f426417f45c357d54dc9074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:57 +0000
Subject: [PATCH 06/27] fix: compile collections without usage

The extractor yields such collections, which raised TypeError.
---
 hrdc/descriptor/streamer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index 5bf7511..57f7da4 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -22,7 +22,8 @@ class Streamer(descriptor.Visitor):
                 a(item.ReportID(e.id))
 
         elif isinstance(e, descriptor.Collection):
-            a(item.Usage(e.usage))
+            if e.usage is not None:
+                a(item.Usage(e.usage))
             a(item.Collection(e.kind))
 
     def leave(self, e):
-- 
2.43.0


From 037eb2b237cf849dac3a4965c9cf067c839e980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:58 +0000
Subject: [PATCH 07/27] fix: read and write binary descriptors in named files

The command-line tools open files in text mode; only the standard
streams were switched to their binary buffer.
---
 hrdc/stream/formatter/binary.py | 3 +--
 hrdc/stream/parser/binary.py    | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/hrdc/stream/formatter/binary.py b/hrdc/stream/formatter/binary.py
index 62f1399..a9b22c4 100644
--- a/hrdc/stream/formatter/binary.py
+++ b/hrdc/stream/formatter/binary.py
@@ -2,8 +2,7 @@ from .base import Formatter
 
 class Binary(Formatter):
     def __init__(self, output):
-        import sys
-        if output == sys.stdout and hasattr(output, "buffer"):
+        if hasattr(output, "buffer"):
             self.output = output.buffer
         else:
             self.output = output
diff --git a/hrdc/stream/parser/binary.py b/hrdc/stream/parser/binary.py
index ccfa24e..fb539ab 100644
--- a/hrdc/stream/parser/binary.py
+++ b/hrdc/stream/parser/binary.py
@@ -2,9 +2,7 @@ from .base import Parser
 
 class Binary(Parser):
     def __init__(self, input, output):
-        import sys
-
-        if input == sys.stdin and hasattr(input, "buffer"):
+        if hasattr(input, "buffer"):
             input = input.buffer
 
         Parser.__init__(self, input, output)
-- 
2.43.0


From c6dca0091533c0ee588cb1302c61fe0447fb4e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:59 +0000
Subject: [PATCH 08/27] fix: accept // inside block comments

Line comments were cut first, even inside a block comment, which then
never ended.
---
 hrdc/stream/parser/code.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hrdc/stream/parser/code.py b/hrdc/stream/parser/code.py
index 20105bf..3c46742 100644
--- a/hrdc/stream/parser/code.py
+++ b/hrdc/stream/parser/code.py
@@ -3,10 +3,8 @@ import re
 
 class Code(Parser):
     def read(self, *args):
-        contents = ""
-        for line in self.input.read(*args).split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        contents = self.input.read(*args)
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", " ", contents, flags = re.S)
         contents = re.sub(r"\s+", "", contents)
         blob = bytes(int(x, 16) for x in contents.split(",") if x)
         self.blobParse(blob)
-- 
2.43.0


From 7673d039125d9865d4fba730c05526f4e3ca22aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:01 +0000
Subject: [PATCH 09/27] fix: do not print into the decompiled script

The decompiler may write its script to the standard output.
---
 hrdc/descriptor/extractor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 792b45f..71d0122 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -210,8 +210,7 @@ class Extractor(Stream):
             uArray = list(map(self.usage, list(range(len(self.usages)))))
             try:
                 uArray = usage.UsageRange.from_array(uArray)
-            except ValueError as e:
-                print(e)
+            except ValueError:
                 pass
             for no in range(self.globalValue(item.GlobalItem.ReportCount)):
                 self.addValue(
-- 
2.43.0


From f6466c0fdff986834a2004c7b582aff343c9af66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:02 +0000
Subject: [PATCH 10/27] fix: dump vendor-defined collection kinds

A kind without a name gave Collection.128, which is not valid Python.
---
 hrdc/descriptor/dumper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 944f729..8c58cad 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -35,7 +35,8 @@ descriptor = """)
 
             self.__indent += 1
         elif isinstance(e, descriptor.Collection):
-            self.write(self.indent() + "Collection(Collection.%s, %s,\n" % (e.kind, Usage.lookup(e.usage) if e.usage is not None else None))
+            kind = "Collection.%s" % e.kind if isinstance(e.kind, NamedConstant) else e.kind
+            self.write(self.indent() + "Collection(%s, %s,\n" % (kind, Usage.lookup(e.usage) if e.usage is not None else None))
             
             self.__indent += 1
 
-- 
2.43.0


From bb361707b0ffeeffde651ad233daea54e28909f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:26 +0000
Subject: [PATCH 11/27] fix: honour Push and Pop when decompiling

They were taken for ordinary globals and restored nothing.
---
 hrdc/descriptor/extractor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 71d0122..31cd600 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -10,6 +10,7 @@ class Extractor(Stream):
         for kind, tag in item.Item.registry.keys():
             if kind == item.Item.Global:
                 self.globals[int(tag)] = 0
+        self.globalsStack = []
         self.localsClear()
         self.stack = []
         self.currentLevel = TopLevel()
@@ -66,7 +67,12 @@ class Extractor(Stream):
 
     def _append(self, i):
         if i.kind == item.Item.Global:
-            self.globals[int(i.tag)] = i.value
+            if i.tag == item.GlobalItem.Push:
+                self.globalsStack.append(dict(self.globals))
+            elif i.tag == item.GlobalItem.Pop:
+                self.globals = self.globalsStack.pop()
+            else:
+                self.globals[int(i.tag)] = i.value
 
         elif i.kind == item.Item.Local:
             if i.tag == item.LocalItem.Usage:
-- 
2.43.0


From 82394667eb1af8c688be7a2030ee25efb195845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:27 +0000
Subject: [PATCH 12/27] fix: decompile every range of a main item

A range was ignored next to single items of its kind, and only the last
of several ranges was kept.
---
 hrdc/descriptor/extractor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 31cd600..98a3c8b 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -87,17 +87,18 @@ class Extractor(Stream):
             else:
                 self.locals[int(i.tag)] = i.value
 
-        elif i.kind == item.Item.Main:
             # Expand ranges
             for min, max, target in [
                 (item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum, self.usages),
                 (item.LocalItem.DesignatorMinimum, item.LocalItem.DesignatorMaximum, self.designators),
                 (item.LocalItem.StringMinimum, item.LocalItem.StringMaximum, self.strings),
                 ]:
-                if self.locals[int(min)] is not None and self.locals[int(max)] is not None and not target:
+                if self.locals[int(min)] is not None and self.locals[int(max)] is not None:
                     for val in range(int(self.locals[int(min)]), int(self.locals[int(max)] + 1)):
                         target.append(val)
+                    self.locals[int(min)] = self.locals[int(max)] = None
 
+        elif i.kind == item.Item.Main:
             if i.tag == item.MainItem.Collection:
                 self.enter(i.value, self.usage())
 
-- 
2.43.0


From 9ca2ff7b73e9e9acc2b82c3f1119280675c2532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:29 +0000
Subject: [PATCH 13/27] fix: decompile ranges of extended usages by name

Their members came out as plain numbers.
---
 hrdc/descriptor/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 98a3c8b..3a8890b 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -39,7 +39,7 @@ class Extractor(Stream):
             return None
         u = self.usages[min((len(self.usages) - 1, int(index)))]
         if u >> 16:
-            return u
+            return usage.Usage.lookup(u)
         return usage.Usage.lookup((self.globals[int(item.GlobalItem.UsagePage)] << 16) | u)
 
     def string(self, index = 0):
-- 
2.43.0


From dd350655c350ff830f50f3eba9675a7051569114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:30 +0000
Subject: [PATCH 14/27] fix: keep the unit of named arrays when decompiling

---
 hrdc/descriptor/extractor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 3a8890b..272cf1d 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -206,6 +206,8 @@ class Extractor(Stream):
                       namedArray = uArray,
                       designator = self.designator(),
                       string = self.string(),
+                      unit = self.globalValue(item.GlobalItem.Unit),
+                      unitExponent = self.globalValue(item.GlobalItem.UnitExponent),
                       )
                 )
 
@@ -227,6 +229,8 @@ class Extractor(Stream):
                           namedArray = uArray,
                           designator = self.designator(),
                           string = self.string(),
+                          unit = self.globalValue(item.GlobalItem.Unit),
+                          unitExponent = self.globalValue(item.GlobalItem.UnitExponent),
                           )
                     )
 
-- 
2.43.0


From 75ba05c7b3adedb9e3237af52380ddbca5bba6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:22 +0000
Subject: [PATCH 15/27] fix: keep empty collections when decompiling

An empty collection is false and was dropped.
---
 hrdc/descriptor/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 272cf1d..6ea80e4 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -125,7 +125,7 @@ class Extractor(Stream):
 
     def leave(self, level = None):
         self.currentLevel = self.stack.pop()
-        if level:
+        if level is not None:
             self.reportIdMerge(level)
             self.currentLevel.append(level)
 
-- 
2.43.0


From f86f240035eef469ec2c0daea07ad2a5084e569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:23 +0000
Subject: [PATCH 16/27] fix: only decompile a lone named array in place of its
 collection

Further fields of the collection were moved to its parent, an earlier one
failed an assertion, a collection without usage raised TypeError, and
flags other than Variable or Array were lost.
---
 hrdc/descriptor/extractor.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 6ea80e4..b802c7d 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -14,7 +14,6 @@ class Extractor(Stream):
         self.localsClear()
         self.stack = []
         self.currentLevel = TopLevel()
-        self.inNamedArrayCollection = False
 
     def localsClear(self):
         self.usages = []
@@ -103,10 +102,7 @@ class Extractor(Stream):
                 self.enter(i.value, self.usage())
 
             elif i.tag == item.MainItem.EndCollection:
-                if self.inNamedArrayCollection:
-                    self.inNamedArrayCollection = False
-                else:
-                    self.leave(self.currentLevel)
+                self.leave(self.currentLevel)
 
                 if len(self.stack) == 0:
                     self.reportIdMerge(self.currentLevel)
@@ -122,11 +118,15 @@ class Extractor(Stream):
     def enter(self, kind, usage):
         self.stack.append(self.currentLevel)
         self.currentLevel = Collection(kind, usage)
+        self.currentLevel.__named_array = None
 
     def leave(self, level = None):
         self.currentLevel = self.stack.pop()
         if level is not None:
             self.reportIdMerge(level)
+            if level.__named_array is not None and len(level) == 1:
+                level.__named_array.__report_ids = level.__report_ids
+                level = level.__named_array
             self.currentLevel.append(level)
 
     def reportIdMerge(self, level):
@@ -173,34 +173,25 @@ class Extractor(Stream):
         return r
 
     def handleDataItem(self, i):
-        if i.value & item.DataItem.Constant:
-            self.addValue(Padding(i.tag, self.globalValue(item.GlobalItem.ReportSize)
-                                          * self.globalValue(item.GlobalItem.ReportCount)))
-
-        elif (self.globalValue(item.GlobalItem.ReportCount) == 1
+        if (self.globalValue(item.GlobalItem.ReportCount) == 1
               and len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
                                        - self.globalValue(item.GlobalItem.LogicalMinimum) + 1)
               and ((i.value == item.DataItem.Variable
                     and self.currentLevel.kind == Collection.NamedArray)
-                   or (i.value == item.DataItem.Array
+                   or (i.value in (item.DataItem.Array, item.DataItem.Variable)
                        and self.currentLevel.kind == Collection.Logical
-                       and usage.NAry.test(self.currentLevel.usage))
-                   or (self.currentLevel.kind == Collection.Logical
+                       and self.currentLevel.usage is not None
                        and usage.NAry.test(self.currentLevel.usage)))):
 
-            self.inNamedArrayCollection = True
-            arrayCollection = self.currentLevel
-            self.leave()
-            assert len(arrayCollection) == 0
-
             uArray = list(map(self.usage, list(range(len(self.usages)))))
             try:
                 uArray = usage.UsageRange.from_array(uArray)
             except ValueError:
                 pass
 
-            self.addValue(
-                Value(i.tag, arrayCollection.usage,
+            # Will replace its collection if nothing else comes there
+            self.currentLevel.__named_array = (
+                Value(i.tag, self.currentLevel.usage,
                       self.globalValue(item.GlobalItem.ReportSize),
                       logicalMin = self.globalValue(item.GlobalItem.LogicalMinimum),
                       namedArray = uArray,
@@ -211,6 +202,10 @@ class Extractor(Stream):
                       )
                 )
 
+        if i.value & item.DataItem.Constant:
+            self.addValue(Padding(i.tag, self.globalValue(item.GlobalItem.ReportSize)
+                                          * self.globalValue(item.GlobalItem.ReportCount)))
+
         # Named array without enclosing collection (like in Keyboard RD)
         elif i.value == (item.DataItem.Data | item.DataItem.Array) and \
                  len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
-- 
2.43.0


From 266d575d540107e4ef0bd2c17f4a04a9fe3009fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:47 +0000
Subject: [PATCH 17/27] fix: only drop a null designator that is alone in its
 main item

A global item between two designators made the first one look alone, and
ranges were not taken into account. Items after the last main item were
lost.
---
 hrdc/stream/optimizer/designator_uniq.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hrdc/stream/optimizer/designator_uniq.py b/hrdc/stream/optimizer/designator_uniq.py
index 8d9ba00..e7365b2 100644
--- a/hrdc/stream/optimizer/designator_uniq.py
+++ b/hrdc/stream/optimizer/designator_uniq.py
@@ -12,6 +12,8 @@ class DesignatorUniq(Optimizer):
         self.designatorToFilter = None
 
     def close(self):
+        for i in self.pending:
+            self.stream.append(i)
         self.stream.close()
         
     def append(self, item):
@@ -26,7 +28,10 @@ class DesignatorUniq(Optimizer):
                     self.designatorToFilter = item
                 else:
                     self.designatorToFilter = False
-        else:
+            elif item.tag in (LocalItem.DesignatorMinimum,
+                              LocalItem.DesignatorMaximum):
+                self.designatorToFilter = False
+        elif item.kind == Item.Main:
             if self.designatorToFilter:
                 self.pending = [x for x in self.pending if x is not self.designatorToFilter]
             for i in self.pending:
-- 
2.43.0


From 78de5fa98338e719ba909a53e801768881fbeaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:48 +0000
Subject: [PATCH 18/27] fix: do not merge usages over delimiters and page
 boundaries

A range holds neither sets of alternate usages nor usages from two pages.
---
 hrdc/stream/optimizer/range_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrdc/stream/optimizer/range_merge.py b/hrdc/stream/optimizer/range_merge.py
index 303ea57..7437b10 100644
--- a/hrdc/stream/optimizer/range_merge.py
+++ b/hrdc/stream/optimizer/range_merge.py
@@ -45,14 +45,15 @@ class RangeMerge(Optimizer):
         from ..item import Item, LocalItem
 
         if self.merging and item.kind == Item.Local:
-            if item.tag in (self.min, self.max):
+            if item.tag in (self.min, self.max, LocalItem.Delimiter):
                 self.merging = False
                 
             elif item.tag == self.lookup:
                 if self.maxValue is None:
                     self.maxValue = item.value
                     self.minValue = item.value
-                elif int(item.value) == int(self.maxValue) + 1:
+                elif int(item.value) == int(self.maxValue) + 1 \
+                         and int(item.value) & 0xffff:
                     self.maxValue = item.value
                 else:
                     self.merging = False
-- 
2.43.0


From 64251394f34ef1602eb98e38ab6122a229adc74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:49 +0000
Subject: [PATCH 19/27] fix: restate the physical range when it changes

The pass never knew which physical range it had output: a range equal to
the logical one was dropped even when another one was in force, and a
range was forgotten after one main item.
---
 hrdc/stream/optimizer/physical_merge.py | 29 +++++++++++++++----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/hrdc/stream/optimizer/physical_merge.py b/hrdc/stream/optimizer/physical_merge.py
index 19b38e0..96074d6 100644
--- a/hrdc/stream/optimizer/physical_merge.py
+++ b/hrdc/stream/optimizer/physical_merge.py
@@ -19,23 +19,28 @@ class PhysicalMerge(Optimizer):
         self.pending = []
 
     def append(self, item):
-        from ..item import Item, GlobalItem, PhysicalMinimum, PhysicalMaximum
+        from ..item import Item, GlobalItem, MainItem, PhysicalMinimum, PhysicalMaximum
 
         if item.kind == Item.Main:
-            if int(self.current[GlobalItem.PhysicalMinimum].value) == 0 \
-                and int(self.current[GlobalItem.PhysicalMaximum].value) == 0 \
-                and int(self.changed[GlobalItem.PhysicalMinimum].value) \
-                == int(self.changed[GlobalItem.LogicalMinimum].value) \
-                and int(self.changed[GlobalItem.PhysicalMaximum].value) \
-                == int(self.changed[GlobalItem.LogicalMaximum].value):
-                self.pending = [x for x in self.pending
-                                if x.kind != Item.Global
-                                or x.tag not in (GlobalItem.PhysicalMinimum,
-                                                  GlobalItem.PhysicalMaximum)]
+            self.pending = [x for x in self.pending
+                            if x.kind != Item.Global
+                            or x.tag not in (GlobalItem.PhysicalMinimum,
+                                              GlobalItem.PhysicalMaximum)]
+            if item.tag in (MainItem.Input, MainItem.Output, MainItem.Feature):
+                physical = (self.changed[GlobalItem.PhysicalMinimum],
+                            self.changed[GlobalItem.PhysicalMaximum])
+                if int(self.changed[GlobalItem.PhysicalMinimum].value) \
+                    == int(self.changed[GlobalItem.LogicalMinimum].value) \
+                    and int(self.changed[GlobalItem.PhysicalMaximum].value) \
+                    == int(self.changed[GlobalItem.LogicalMaximum].value):
+                    physical = (PhysicalMinimum(0), PhysicalMaximum(0))
+                for i in physical:
+                    if self.current[i.tag] != i:
+                        self.current[i.tag] = i
+                        self.pending.append(i)
             for i in self.pending:
                 self.stream.append(i)
             self.pending = []
-            self.changed = dict(list(self.current.items()))
             self.stream.append(item)
         else:
             self.pending.append(item)
-- 
2.43.0


From 4bff81a378ec7143343fd6792976f91b087e8cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:13 +0000
Subject: [PATCH 20/27] fix: only merge fields that keep their own locals

Merging arrays, or fields where only some have a usage, a designator or a
string, or where one has several of them, assigned them to other fields.
---
 hrdc/stream/optimizer/main_merge.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index 602920c..6962487 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -15,6 +15,12 @@ class MainMerge(Optimizer):
         GlobalItem.ReportID,
         )
 
+    mergeable = set(map(int, (
+        LocalItem.Usage,
+        LocalItem.DesignatorIndex,
+        LocalItem.StringIndex,
+        )))
+
     def __init__(self, stream):
         self.stream = stream
         self.beforeMain = []
@@ -22,6 +28,8 @@ class MainMerge(Optimizer):
         self.afterMain = []
         self.beforeCount = 0
         self.afterCount = 0
+        self.locals = []
+        self.mergedLocals = set()
         
         self.props = {}
         
@@ -29,10 +37,11 @@ class MainMerge(Optimizer):
             self.props[key] = 0
 
     def append(self, item):
-        from ..item import Item, MainItem, GlobalItem
+        from ..item import Item, MainItem, GlobalItem, DataItem
 
         if item.kind == Item.Local:
             self.afterMain.append(item)
+            self.locals.append(int(item.tag))
 
         elif item.kind == Item.Global:
             self.afterMain.append(item)
@@ -49,12 +58,21 @@ class MainMerge(Optimizer):
             if item.tag not in (MainItem.Input, MainItem.Output, MainItem.Feature):
                 self.afterMain.append(item)
                 self.flush()
+                self.locals = []
                 return
 
-            if self.mainItems and item != self.mainItems[0]:
+            if self.mainItems and (item != self.mainItems[0]
+                                   or set(self.locals) != self.mergedLocals):
                 self.flush()
 
-            flush_after = self.afterCount != 1
+            # Only fields having at most one usage, one designator and one
+            # string each can share a main item
+            self.mergedLocals = set(self.locals)
+            flush_after = self.afterCount != 1 \
+                or not item.value & (DataItem.Variable | DataItem.Constant) \
+                or len(self.mergedLocals) != len(self.locals) \
+                or not self.mergedLocals <= self.mergeable
+            self.locals = []
 
             self.beforeMain += self.afterMain
             self.beforeCount += self.afterCount
-- 
2.43.0


From b6f8abbdd1b13cf989942adf735abafe174aa782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:14 +0000
Subject: [PATCH 21/27] fix: keep merged fields together when closing the
 stream

Pending main items were output one by one after the count and usages of
all of them.
---
 hrdc/stream/optimizer/main_merge.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index 6962487..0a734a6 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -99,10 +99,6 @@ class MainMerge(Optimizer):
         self.beforeCount = 0
 
     def close(self):
-        for i in self.beforeMain:
-            self.stream.append(i)
-        for i in self.mainItems:
-            self.stream.append(i)
-        for i in self.afterMain:
-            self.stream.append(i)
+        self.flush()
+        self.flush()
         self.stream.close()
-- 
2.43.0


From 61fde1640620caf29145253e3bdfce7ef4df4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:15 +0000
Subject: [PATCH 22/27] fix: optimize streams with Push and Pop

No pass restored its idea of the global state on Pop, so that items which
were needed after it got dropped.
---
 hrdc/stream/optimizer/__init__.py |  1 +
 hrdc/stream/optimizer/push_pop.py | 37 +++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)
 create mode 100644 hrdc/stream/optimizer/push_pop.py

diff --git a/hrdc/stream/optimizer/__init__.py b/hrdc/stream/optimizer/__init__.py
index 5744b20..2e7224a 100644
--- a/hrdc/stream/optimizer/__init__.py
+++ b/hrdc/stream/optimizer/__init__.py
@@ -3,6 +3,7 @@ from . import designator_uniq
 from . import global_merge
 from . import main_merge
 from . import physical_merge
+from . import push_pop
 from . import range_merge
 from . import usage_page
 
diff --git a/hrdc/stream/optimizer/push_pop.py b/hrdc/stream/optimizer/push_pop.py
new file mode 100644
index 0000000..7ef55ad
--- /dev/null
+++ b/hrdc/stream/optimizer/push_pop.py
@@ -0,0 +1,37 @@
+from .base import Optimizer
+
+class PushPop(Optimizer):
+    """
+    Replace Push and Pop by the global items that restore the state, as
+    other passes only follow explicit items
+    """
+    precedence = 90
+
+    def __init__(self, stream):
+        self.stream = stream
+        self.globals = {}
+        self.stack = []
+
+    def close(self):
+        self.stream.close()
+
+    def append(self, item):
+        from ..item import Item, GlobalItem
+
+        if item.kind != Item.Global:
+            self.stream.append(item)
+
+        elif item.tag == GlobalItem.Push:
+            self.stack.append(dict(self.globals))
+
+        elif item.tag == GlobalItem.Pop:
+            saved = self.stack.pop()
+            for tag in self.globals:
+                i = saved.get(tag) or Item.itemclass(Item.Global, tag)(0)
+                if i != self.globals[tag]:
+                    self.stream.append(i)
+            self.globals = saved
+
+        else:
+            self.globals[item.tag] = item
+            self.stream.append(item)
-- 
2.43.0


From 0952623959722ba4c018fd1a2c605237dc026a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:16 +0000
Subject: [PATCH 23/27] fix: optimize streams with usage pages and short usages

Usages coming from a parser are short and were all moved to page 0. A
main item with usages from several pages had a usage page between them,
although the last one applies to all its usages.
---
 hrdc/stream/optimizer/__init__.py     |  1 +
 hrdc/stream/optimizer/usage_extend.py | 30 +++++++++++++++++++++++++++
 hrdc/stream/optimizer/usage_page.py   | 13 ++++++++----
 3 files changed, 40 insertions(+), 4 deletions(-)
 create mode 100644 hrdc/stream/optimizer/usage_extend.py

diff --git a/hrdc/stream/optimizer/__init__.py b/hrdc/stream/optimizer/__init__.py
index 2e7224a..3f64d03 100644
--- a/hrdc/stream/optimizer/__init__.py
+++ b/hrdc/stream/optimizer/__init__.py
@@ -5,5 +5,6 @@ from . import main_merge
 from . import physical_merge
 from . import push_pop
 from . import range_merge
+from . import usage_extend
 from . import usage_page
 
diff --git a/hrdc/stream/optimizer/usage_extend.py b/hrdc/stream/optimizer/usage_extend.py
new file mode 100644
index 0000000..7a76155
--- /dev/null
+++ b/hrdc/stream/optimizer/usage_extend.py
@@ -0,0 +1,30 @@
+from .base import Optimizer
+
+class UsageExtend(Optimizer):
+    """
+    Replace usage pages by extended usages, as other passes expect them
+    """
+    precedence = 80
+
+    def __init__(self, stream):
+        self.stream = stream
+        self.page = 0
+
+    def append(self, item):
+        from ..item import Item, GlobalItem, LocalItem
+        from ...usage import Usage
+
+        if item.kind == Item.Global and item.tag == GlobalItem.UsagePage:
+            self.page = int(item.value)
+            return
+
+        if item.kind == Item.Local \
+               and item.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum) \
+               and not int(item.value) >> 16:
+            u = Usage.lookup(self.page << 16 | int(item.value))
+            item = Item.itemclass(item.kind, item.tag)(u)
+
+        self.stream.append(item)
+
+    def close(self):
+        self.stream.close()
diff --git a/hrdc/stream/optimizer/usage_page.py b/hrdc/stream/optimizer/usage_page.py
index 5bceda4..3369ec5 100644
--- a/hrdc/stream/optimizer/usage_page.py
+++ b/hrdc/stream/optimizer/usage_page.py
@@ -6,6 +6,7 @@ class UsagePage(Optimizer):
     def __init__(self, stream):
         self.stream = stream
         self.page = None
+        self.settled = False
 
     def append(self, item):
         from ..item import Item, GlobalItem, LocalItem, UsagePage, Usage
@@ -16,16 +17,20 @@ class UsagePage(Optimizer):
 
             sp, su = Usage.lookup(item.value).split()
 
-            if self.page is None or self.page != int(sp):
+            if not self.settled and (self.page is None or self.page != int(sp)):
                 self.page = int(sp)
                 self.stream.append(UsagePage(sp))
 
-            item = Item.itemclass(item.kind, item.tag)(su)
+            # The last usage page before a main item applies to all its short
+            # usages, so that the others must tell their page
+            self.settled = True
+            if self.page == int(sp):
+                item = Item.itemclass(item.kind, item.tag)(su)
 
         self.stream.append(item)
 
-        if item.kind == Item.Global and item.tag == GlobalItem.UsagePage:
-            self.page = int(item.value)
+        if item.kind == Item.Main:
+            self.settled = False
 
     def close(self):
         self.stream.close()
-- 
2.43.0


From 5a0cbaf7b2ca8464e92be145afc5bb2a90a4f427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:33 +0000
Subject: [PATCH 24/27] fix: keep every usage, designator and string of a
 buffered bytes item when decompiling

---
 hrdc/descriptor/extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index b802c7d..c425935 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -229,7 +229,8 @@ class Extractor(Stream):
                           )
                     )
 
-        elif i.value & item.DataItem.BufferedBytes:
+        elif i.value & item.DataItem.BufferedBytes \
+                 and max(len(self.usages), len(self.designators), len(self.strings)) <= 1:
 
             ue = self.globalValue(item.GlobalItem.UnitExponent)
             self.addValue(
-- 
2.43.0


From 314a0a16d744e80277fff2ddb4d017293c1c0c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:52 +0000
Subject: [PATCH 25/27] fix: write the logical bounds of a value with an empty
 named array when dumping

---
 hrdc/descriptor/dumper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 8c58cad..003cf2d 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -70,9 +70,9 @@ if __name__ == "__main__":
 #            self.write(", reportId = %s" % list(e._Extractor__report_ids)[0])
             if e.logicalMin != 1:
                 self.write(", logicalMin = %s" % e.logicalMin)
-            if isinstance(e.namedArray, UsageRange):
+            if e.namedArray and isinstance(e.namedArray, UsageRange):
                 self.write(", namedArray = %s" % e.namedArray)
-            elif e.namedArray != None:
+            elif e.namedArray:
                 self.write(", namedArray = [\n")
                 for u in e.namedArray:
                     self.write(self.indent(1) + str(u) + ",\n")
-- 
2.43.0


From 17d101101b05d051bcae97ab0961c779988c3382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:53 +0000
Subject: [PATCH 26/27] fix: keep reserved bits in the name of data item flags,
 so that dumping does not lose them

---
 hrdc/descriptor/dumper.py | 2 +-
 hrdc/stream/item.py       | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 003cf2d..d1560e5 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -65,7 +65,7 @@ if __name__ == "__main__":
                    and not (e.namedArray and e.usage and e.flags == item.DataItem.Variable) \
                    and not (e.namedArray and not e.usage and e.flags == item.DataItem.Data | item.DataItem.Array):
                 flags = str(e.flags)
-                flags = re.sub(r"([A-Za-z]+)", r"Value.\1", flags)
+                flags = re.sub(r"\b([A-Za-z]+)", r"Value.\1", flags)
                 self.write(", flags = %s" % flags)
 #            self.write(", reportId = %s" % list(e._Extractor__report_ids)[0])
             if e.logicalMin != 1:
diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index fc2da2b..da05a39 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -191,8 +191,11 @@ class DataItem(MainItem):
     def __init__(self, value):
         if not isinstance(value, NamedConstant):
             i = int(value)
-            v = [r for r in self._rev if int(r) & i]
-            value = NamedConstant("|".join(x.name for x in v) or "Array", i)
+            v = [r.name for r in self._rev if int(r) & i]
+            reserved = i & ~0x1ff
+            if reserved:
+                v.append(hex(reserved))
+            value = NamedConstant("|".join(v) or "Array", i)
         MainItem.__init__(self, value)
 
 class Input(DataItem):
-- 
2.43.0


From 627729eab4a769b84c420d0182367ab145ae27c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:08 +0000
Subject: [PATCH 27/27] fix: accept // inside block comments of expected code

---
 hrdc/stream/comparer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hrdc/stream/comparer.py b/hrdc/stream/comparer.py
index f7a66f9..d27eddd 100644
--- a/hrdc/stream/comparer.py
+++ b/hrdc/stream/comparer.py
@@ -7,10 +7,7 @@ class ExpectedStream(stream.Stream):
     def __init__(self, test_case, expected_code):
         self.test_case = test_case
 
-        contents = ""
-        for line in expected_code.split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", " ", expected_code, flags = re.S)
         contents = re.sub(r"\s+", "", contents)
         self.expected = bytes(int(x, 16) for x in contents.split(",") if x)
         self.point = 0
-- 
2.43.0

