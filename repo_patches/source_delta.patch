From e363464374a8d35146923aaf5f2a54886d28eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:13 +0000
Subject: [PATCH 01/22] fix: reject BitField values outside 0..2**width-1

---
 h800/bitfield.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index a4af429..7cebdce 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -110,8 +110,8 @@ class BitField:
             raise ValueError("Width is greater than maximum allowed!")
         self._maxval = 2 ** width - 1
         self._value = value
-        if self._value > self._maxval:
-            raise ValueError("Value is greater than maximum allowed by "
+        if self._value < 0 or self._value > self._maxval:
+            raise ValueError("Value is outside the range allowed by "
                              "bit-field width!")
         self._numbering = numbering
         if numbering not in (self.BIT_SCHEME_LSB_0, self.BIT_SCHEME_LSB_1,
@@ -315,8 +315,8 @@ class BitField:
             width = self.width
         if width < 0 or width > self.maxval:
             raise ValueError("Illegal bit-field width %d!" % self.width)
-        if value > 2 ** width:
-            raise ValueError("Value is greater than allowed for %d-bit field!"
+        if value < 0 or value > 2 ** width - 1:
+            raise ValueError("Value is outside range allowed for %d-bit field!"
                              % width)
 
     def _bitmask(self, start, end):
-- 
2.43.0


From 98b0faf6d497f302802bce13a5c8be5167f08272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:14 +0000
Subject: [PATCH 02/22] fix: build the BitField range mask at the LSB end of
 the range

---
 h800/bitfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 7cebdce..be5ebc0 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -326,7 +326,7 @@ class BitField:
         if width == self._width:
             shift = 0
         else:
-            shift = self._shift(rend)
+            shift = self._shift(self._lsbIndex(rstart, rend))
         bitmask = (2 ** width - 1) << shift
         # print("BM: %d:%d | %d:%d | S=%d | B=0x%x" %
         #       (start, end, rstart, rend, shift, bitmask))
-- 
2.43.0


From 8e6068ca3c61efdd915bb063d6e2e9b2f8fff516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:15 +0000
Subject: [PATCH 03/22] fix: BitField.set(0)/clear(0) address bit 0, not every
 bit

---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index be5ebc0..5be25e2 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -410,7 +410,7 @@ class BitField:
 
     def set(self, index=None):
         "Set the specified bit (or all bits if not specified) to 1."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 1)
         else:
@@ -418,7 +418,7 @@ class BitField:
 
     def clear(self, index=None):
         "Set the specified bit (or all bits if not specified) to 0."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 0)
         else:
-- 
2.43.0


From d63b347370fadef9ee2487b2ff4aae05aaa741a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:16 +0000
Subject: [PATCH 04/22] fix: BitField.isRange/isRangeClr compare every bit of
 the range

---
 h800/bitfield.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 5be25e2..063cdb7 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -443,11 +443,11 @@ class BitField:
         if value not in (0, 1):
             raise ValueError("Bit-field Value must be 0 or 1!")
         subfield = self.__getitem__(slice(start, end))
-        bitmask = self._bitmask(start, end)
+        rstart, rend = self._getRange(start, end)
         if value == 0:
             return True if subfield == 0 else False
         else:
-            setval = int(bitmask)
+            setval = 2 ** (rend - rstart + 1) - 1
             return True if subfield == setval else False
 
     def isRangeSet(self, start, end):
@@ -456,4 +456,4 @@ class BitField:
 
     def isRangeClr(self, start, end):
         "Return True if the specified range of bits are all 0."
-        return not self.isRangeSet(start, end)
+        return self.isRange(start, end, 0)
-- 
2.43.0


From 16ca24c52a69eedc4f3c32330eeb569e9c20be1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:17 +0000
Subject: [PATCH 05/22] fix: MemoryBank can be iterated more than once

---
 h800/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/memory.py b/h800/memory.py
index ee4fe3e..97f8195 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -64,7 +64,7 @@ class MemoryBank:
         return len(self._data)
 
     def __iter__(self):
-        return self
+        return iter([self._data[addr] for addr in range(len(self._data))])
 
     def __next__(self):
         if self._current >= len(self._data):
-- 
2.43.0


From d0704062c86ff5c7252f47fea0671db636a14e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:18 +0000
Subject: [PATCH 06/22] fix: RegisterGroup.clear and Registers.clear work on
 every call

---
 h800/registers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index cf8aa3e..b515b68 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -191,7 +191,7 @@ class RegisterGroup:
         return text
 
     def clear(self):
-        for register in self:
+        for register in self._registers.values():
             register.clear()
 
 
@@ -249,5 +249,5 @@ class Registers:
         return text
 
     def clear(self):
-        for group in self:
+        for group in self._registers.values():
             group.clear()
-- 
2.43.0


From 10d7853d1c9f39635fe1dda99bb052aceb7cd2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:19 +0000
Subject: [PATCH 07/22] fix: RegisterGroup can be iterated more than once

---
 h800/registers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/registers.py b/h800/registers.py
index b515b68..69b6e9b 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -175,7 +175,7 @@ class RegisterGroup:
         return len(self._registers)
 
     def __iter__(self):
-        return self
+        return iter([self._registers[num] for num in range(len(REGISTERS))])
 
     def __next__(self):
         if self._current >= len(REGISTERS):
-- 
2.43.0


From 59f0c7a87681fcf95e09d6ac26e03d10891ed2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:18 +0000
Subject: [PATCH 08/22] fix: assigning a register or group by name or number
 replaces that one

---
 h800/registers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index 69b6e9b..8349a5f 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -167,9 +167,13 @@ class RegisterGroup:
         if isinstance(key, slice):
             raise ValueError("Slices not supported!")
         if isinstance(key, str):
-            self._registers[key] = value
-        else:
+            if key not in REGISTERS:
+                raise ValueError("Invalid register name %s!" % key)
             self._registers[REGISTERS[key]] = value
+        else:
+            if key < 0 or key >= len(REGISTERS):
+                raise ValueError("Invalid register number %d!" % key)
+            self._registers[key] = value
 
     def __len__(self):
         return len(self._registers)
@@ -227,6 +231,8 @@ class Registers:
         if not isinstance(key, int):
             raise ValueError("Invalid register group number %s!" % key)
         else:
+            if key < 0 or key >= self._NUM_GROUPS:
+                raise ValueError("Invalid register group number %d!" % key)
             self._registers[key] = value
 
     def __len__(self):
-- 
2.43.0


From 6e999297e3368a28600fd57c2a7afe4c205ea6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:18 +0000
Subject: [PATCH 09/22] fix: report multiply-defined symbols instead of
 overwriting them

---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 631e9bc..44b28ef 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -277,7 +277,7 @@ def buildSymbolTable(filename, symtab, verbose=False):
                 symtab[tagName][seg][subseg] = {}
                 symtab[tagName][seg][subseg][symtype] = symtabEntry
             else:
-                prevdef = symtab[tagName]
+                prevdef = symtab[tagName][seg][subseg]
                 if symtype not in prevdef.keys():
                     symtab[tagName][seg][subseg][symtype] = symtabEntry
                 else:
-- 
2.43.0


From 45e31261ac913db0ef67ef69a93875aab504571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:19 +0000
Subject: [PATCH 10/22] fix: getAbsoluteSymbols looks in every segment of every
 symbol

---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 44b28ef..baff2d9 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -323,8 +323,8 @@ def checkSymbolTable(symtab, verbose=False, complexOnlyError=False):
 def getAbsoluteSymbols(symtab):
     """Return a list of the symbols that have absolute definitions."""
     syms = []
-    found = False
     for symbol in sorted(symtab.keys()):
+        found = False
         for seg in sorted(symtab[symbol].keys()):
             for subseg in sorted(symtab[symbol][seg].keys()):
                 if "simple" in symtab[symbol][seg][subseg].keys():
-- 
2.43.0


From b08cf2f0a44cce2b33336b41fb71377a81f1895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:20 +0000
Subject: [PATCH 11/22] fix: SymbolTableEntry.value and SymbolTable.update work

---
 h800/symbol_table.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index baff2d9..679374d 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -32,7 +32,9 @@ class SymbolTableEntry:
 
     @property
     def value(self):
-        return self._value
+        if self._absoluteValue is not None:
+            return self._absoluteValue
+        return self._complexValue
 
     @property
     def references(self):
@@ -54,6 +56,13 @@ class SymbolTableEntry:
     def line(self):
         return self._line
 
+    def setValue(self, value, symtype=None):
+        self._symtype = symtype
+        if symtype == "absolute":
+            self._absoluteValue = value
+        else:
+            self._complexValue = value
+
     def isValid(self):
         return (self._absoluteValue is not None or
                 self._complexValue is not None)
@@ -100,12 +109,9 @@ class SymbolTable:
     def update(self, name, value=None, symtype=None):
         if name:
             if name not in list(self._symbols.keys()):
-                self.context.error("symbol \"%s\" not defined!" % (name))
+                print("ERROR: Symbol \"%s\" not defined!" % (name))
             else:
-                entry = self._symbols[name]
-                entry.value = value
-                entry.type = symtype
-                self._symbols[name] = entry
+                self._symbols[name].setValue(value, symtype)
 
     def resolve(self, maxPasses=10):
         nPrevUndefs = nUndefs = len(self._undefs)
-- 
2.43.0


From 935a522c2de95f548879ccc5db37d5620c47a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:21 +0000
Subject: [PATCH 12/22] fix: pruneUndefines removes every resolved symbol

---
 h800/symbol_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 679374d..19cbbf9 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -135,11 +135,11 @@ class SymbolTable:
         # Prune the undefs list.
         numUndefs = len(self._undefs)
         print("Pruning undefined symbols list (%d undefs)" % numUndefs)
-        for i, symbol in enumerate(self._undefs):
+        for symbol in list(self._undefs):
             entry = self._symbols[symbol]
             if entry.isValid():
                 print("Removing %s from undefined symbols list" % (symbol))
-                del self._undefs[i]
+                self._undefs.remove(symbol)
         print("Removed %d symbols from undef list" %
               (numUndefs - len(self._undefs)))
 
-- 
2.43.0


From d12b690c56be32f60bfe98071e9ae26b824072e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:22 +0000
Subject: [PATCH 13/22] fix: the TS opcode entry names its actual instruction
 class

---
 h800/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/instructions.py b/h800/instructions.py
index 06c3f07..361eaab 100755
--- a/h800/instructions.py
+++ b/h800/instructions.py
@@ -173,7 +173,7 @@ OPCODES = {
     "TX":   Opcode("TX", "Transfer",
                    0b10, 0b1, 0o20, "maskable"),
 
-    "TS":   Opcode("TS", "TransferAndChangeSequence",
+    "TS":   Opcode("TS", "TransferChangeSequence",
                    0b10, 0b1, 0o04, "maskable"),
 
     "HA":   Opcode("HA", "HalfAdd",
-- 
2.43.0


From 5e1babc4c53c05d93237d9b4aa4df1233790eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:23 +0000
Subject: [PATCH 14/22] fix: P/R/L card remarks start at column 9

---
 h800/arguscard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/arguscard.py b/h800/arguscard.py
index a1e19c0..33e61e9 100755
--- a/h800/arguscard.py
+++ b/h800/arguscard.py
@@ -41,9 +41,9 @@ class Card(punchcard.PunchCard):
             self._record["operand2"] = None
             self._record["operand3"] = None
             self._record["misc"] = None
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         if self.column1 == 'L':
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         self._record["instruction"] = self._record["operation"]
         if self._record["operation"] and ',' in self._record["operation"]:
             self._record["instruction"] = \
-- 
2.43.0


From 9237d02934dcb080f609a8a72e5e828fbe07f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:24 +0000
Subject: [PATCH 15/22] fix: PunchCard fields never contain the line terminator

---
 h800/punchcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/punchcard.py b/h800/punchcard.py
index 06cf50e..4336429 100755
--- a/h800/punchcard.py
+++ b/h800/punchcard.py
@@ -65,7 +65,7 @@ class PunchCard:
                 self._layout.append((fstart, fwidth))
             self._fields = []
             for s, w in self._layout:
-                self._fields.append(line[s-1:s-1+w])
+                self._fields.append(self._line[s-1:s-1+w])
             self._strippedFields = []
             self._record = {}
             if linenum != 0:
-- 
2.43.0


From 3af985f91fc34a8d2f951a9b264e1812f6324aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:25 +0000
Subject: [PATCH 16/22] fix: check-instructions --count copes with sources
 without instructions

---
 tools/check-instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/check-instructions.py b/tools/check-instructions.py
index 850422a..b854270 100755
--- a/tools/check-instructions.py
+++ b/tools/check-instructions.py
@@ -110,13 +110,13 @@ def main():
                 if opts.unused and freqtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, freqtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/float(instrcount or 1)))
         else:
             for inst in sorted(instrtab.keys()):
                 if opts.unused and instrtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, instrtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/float(instrcount or 1)))
 
     if opts.unused:
         print("\nUnused Instructions:")
-- 
2.43.0


From b9f26422ba203814f546fe63d8c7ff62196c42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:26 +0000
Subject: [PATCH 17/22] fix: parse.py totals the errors of every file

---
 tools/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/parse.py b/tools/parse.py
index 8a59c7b..46147e3 100755
--- a/tools/parse.py
+++ b/tools/parse.py
@@ -44,10 +44,11 @@ def main():
 
     symtab = {}
     for filename in args:
-        symtab, errcount = buildSymbolTable(filename, symtab,
-                                            verbose=opts.verbose)
+        symtab, symerrs = buildSymbolTable(filename, symtab,
+                                           verbose=opts.verbose)
+        errcount += symerrs
         print("%s: %d errors encountered building symbol table." %
-              (filename, errcount), file=sys.stderr)
+              (filename, symerrs), file=sys.stderr)
 
     for filename in args:
         d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)
-- 
2.43.0


From a297cd8825e4d8817a96d2190e59aab64e96e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:27 +0000
Subject: [PATCH 18/22] fix: genlines does not number past the end

---
 tools/genlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/genlines.py b/tools/genlines.py
index c530463..fcaf3f8 100755
--- a/tools/genlines.py
+++ b/tools/genlines.py
@@ -69,7 +69,7 @@ def main():
     if len(args) >= 5:
         endcol = int(args[4])
 
-    for i in range(start, end+step, step):
+    for i in range(start, end + (1 if step > 0 else -1), step):
         print("%s%s%s" % ((startcol - 1) * ' ',
                           "{num:{fill}{width}}".format(num=i, fill='0',
                                                        width=width),
-- 
2.43.0


From 16a06d2b0ca94cb88cd706bf0014ef7992edfd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:28 +0000
Subject: [PATCH 19/22] fix: listing.py derives the listing name from the file
 extension

---
 tools/listing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/listing.py b/tools/listing.py
index 0957557..95285cc 100755
--- a/tools/listing.py
+++ b/tools/listing.py
@@ -9,6 +9,7 @@
 # This is intended for debugging assembler development.
 
 
+import os.path
 import sys
 from optparse import OptionParser
 
@@ -28,7 +29,7 @@ def main():
         sys.exit(1)
 
     for filename in args:
-        listfile = '.'.join(filename.split('.')[:-1]) + ".lst"
+        listfile = os.path.splitext(filename)[0] + ".lst"
 
         d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)
 
-- 
2.43.0


From a3beb2529a8de4528f07c9fb6ce24aa931dd47e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:33 +0000
Subject: [PATCH 20/22] fix: genpages keeps a blank column 8 blank

---
 tools/genpages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/genpages.py b/tools/genpages.py
index b063d50..e9cc593 100755
--- a/tools/genpages.py
+++ b/tools/genpages.py
@@ -36,7 +36,7 @@ def main():
     d = h800.arguscard.Deck(inlines)
 
     logsection = d.log_section
-    logsectioncol8 = d.log_section_col8
+    logsectioncol8 = d.log_section_col8 or ' '
 
     for line in inlines:
         if logsection is None:
-- 
2.43.0


From a2deb30af144194c86b8fd8057ecc2a44f0c1184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:13 +0000
Subject: [PATCH 21/22] fix: log section ends at column 80

---
 h800/arguscard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/arguscard.py b/h800/arguscard.py
index 33e61e9..9686f12 100755
--- a/h800/arguscard.py
+++ b/h800/arguscard.py
@@ -127,7 +127,7 @@ class Deck(punchcard.Deck):
         for card in self._cards:
             if card.record["column1"] == 'L':
                 # This will only recognise the first log section in a deck.
-                self._logSection = card.line[8:81].strip()
+                self._logSection = card.line[8:80].strip()
                 self._logSectionCol8 = card.record["column8"]
                 break
 
-- 
2.43.0


From 343f617f8c2cae00c2163cfc777dae1dd4409c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:42 +0000
Subject: [PATCH 22/22] fix: fuzzy search of a table without absolute symbols
 finds none

---
 h800/symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 19cbbf9..cbce026 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -369,6 +369,8 @@ def findSymbolDef(symtab, name, symtype=None, begin=False, end=False,
         if fuzzy:
             # Try fuzzy finder.
             absSyms = getAbsoluteSymbols(symtab)
+            if not absSyms:
+                return []
             matches = process.extract(name, absSyms, limit=10)
             if len(matches) > 0:
                 matchList = []
-- 
2.43.0

