From 19482b88818c6295a9a6724be9012149ac40e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 01/17] fix: UnicodeSet remove/retain/complement of a single
 code point did nothing

---
 UnicodeData/UnicodeSet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index e81737e..a981830 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -472,7 +472,7 @@ class UnicodeSet(object):
         :param end: the last code point in the range to remove.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if _pinCodePoint(start) <= _pinCodePoint(end):
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 2) # polarity == 2 means set minus
 
@@ -504,7 +504,7 @@ class UnicodeSet(object):
         :param end: the last code point in the range to intersect.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if _pinCodePoint(start) <= _pinCodePoint(end):
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
 
@@ -539,7 +539,7 @@ class UnicodeSet(object):
         :param end: the last code point in the range.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if _pinCodePoint(start) <= _pinCodePoint(end):
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._exclusiveOrList(other)
 
-- 
2.43.0


From d28ec75ddbf1ea5e59a783269a1a7e9274e871b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 02/17] fix: UnicodeSet.addRange returned None when appending
 after the last range

---
 UnicodeData/UnicodeSet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index a981830..895e36c 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -444,7 +444,7 @@ class UnicodeSet(object):
                             self.list.extend([limit, UNICODE_SET_HIGH])
                         else:
                             self.list.append(UNICODE_SET_HIGH)
-                    return
+                    return self
 
             # This is slow. Could be much faster using findCodePoint(start)
             # and modifying the list, dealing with adjacent & overlapping ranges.
-- 
2.43.0


From 98e8d0e0850ccef7dc3b30d616a4ef48f814ce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 03/17] fix: UnicodeSet.addAll left adjacent ranges unmerged

---
 UnicodeData/UnicodeSet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 895e36c..c8fb08b 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -252,7 +252,7 @@ class UnicodeSet(object):
                     i += 1
                     polarity ^= 1
                 elif b < a: # take b
-                    if len(buffer) > 0 and b < buffer[-1]:
+                    if len(buffer) > 0 and b <= buffer[-1]:
                         b = max(other[j], buffer.pop())
                     else:
                         buffer.append(b)
@@ -263,7 +263,7 @@ class UnicodeSet(object):
                 else: # a == b: take a, drop b
                     if a == UNICODE_SET_HIGH:
                         break
-                    if len(buffer) > 0 and a < buffer[-1]:
+                    if len(buffer) > 0 and a <= buffer[-1]:
                         a = max(self.list[i], buffer.pop())
                     else:
                         buffer.append(a)
-- 
2.43.0


From c90d9e0bdf87cec452eb0065baf3624fc62a33b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 04/17] fix: UnicodeSet.contains reported integers above
 U+10FFFF as members

---
 UnicodeData/UnicodeSet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index c8fb08b..4a35c08 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -595,6 +595,9 @@ class UnicodeSet(object):
         :return: True if the set contans the code point(s), False otherwise.
         """
         if type(arg) is int:
+            if arg < UNICODE_SET_LOW or arg >= UNICODE_SET_HIGH:
+                return False
+
             i = self._findCodePoint(arg)
             return (i & 1) != 0
         elif type(arg) is range:
-- 
2.43.0


From 1a57772d90fb39f00c563ea15610e2896abf1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 05/17] fix: UnicodeSet mutators used out-of-range arguments
 unpinned

---
 UnicodeData/UnicodeSet.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 4a35c08..50177ef 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -397,7 +397,8 @@ class UnicodeSet(object):
         :param cp: the code point to add.
         :return: self, to support chaining.
         """
-        i = self._findCodePoint(_pinCodePoint(cp))
+        cp = _pinCodePoint(cp)
+        i = self._findCodePoint(cp)
 
         if (i & 1) != 0:
             return self
@@ -426,7 +427,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range to add.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if start <= end:
+            start = _pinCodePoint(start)
+            end = _pinCodePoint(end)
             length = len(self.list)
             limit = end + 1
 
@@ -449,9 +452,6 @@ class UnicodeSet(object):
             # This is slow. Could be much faster using findCodePoint(start)
             # and modifying the list, dealing with adjacent & overlapping ranges.
             self._addList([start, limit, UNICODE_SET_HIGH])
-        else:
-            if start == end:
-                self.add(start)
 
         return self
 
@@ -472,7 +472,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range to remove.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) <= _pinCodePoint(end):
+        if start <= end:
+            start = _pinCodePoint(start)
+            end = _pinCodePoint(end)
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 2) # polarity == 2 means set minus
 
@@ -504,7 +506,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range to intersect.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) <= _pinCodePoint(end):
+        if start <= end:
+            start = _pinCodePoint(start)
+            end = _pinCodePoint(end)
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
 
@@ -539,7 +543,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) <= _pinCodePoint(end):
+        if start <= end:
+            start = _pinCodePoint(start)
+            end = _pinCodePoint(end)
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._exclusiveOrList(other)
 
-- 
2.43.0


From e50e591a03f535b6eaa3a7a29c73a3555b607798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 06/17] fix: UnicodeSet constructed from U+10FFFF or an empty
 range was malformed

---
 UnicodeData/UnicodeSet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 50177ef..29d62e7 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -710,9 +710,11 @@ class UnicodeSet(object):
         elif type(arg) is UnicodeSet:
             self.list = arg.list.copy()
         elif type(arg) is int:
-            self.list = [arg, arg + 1, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.add(arg)
         elif type(arg) is range:
-            self.list = [arg.start, arg.stop, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.addRange(arg.start, arg.stop - 1)
         else:
             raise(TypeError("Argument type must be UnicodeSet, int or range."))
 
-- 
2.43.0


From d68c98d3522d69771c3030782a423ad9bc1d1f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 07/17] fix: UTrie2 lookup of U+10FFFF returned the error value

---
 UnicodeData/Utrie2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index 54846cc..fbd3a86 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -86,7 +86,7 @@ class UTrie2(object):
             offset = 0 if c >= 0xDC00 else self.LSCP_INDEX_2_OFFSET - (0xD800 >> self.SHIFT_2)
             return self.indexRaw(offset, c)
 
-        if c >= 0x10FFFF:
+        if c > 0x10FFFF:
             return asciiOffset + self.BAD_UTF8_DATA_OFFSET
 
         return self.highValueIndex if c >= self.highStart else self.indexFromSupp(c)
-- 
2.43.0


From 190d512476c17d178e1f8fdc83036fd902a23b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 08/17] fix: UTrie2.enumerator skipped or repeated code points
 at block boundaries

---
 UnicodeData/Utrie2.py | 41 ++++++++++++-----------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index fbd3a86..9d9f9f5 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -109,16 +109,12 @@ class UTrie2(object):
         # enumerate index-2 blocks
         c = start
         while c < limit and c < self.highStart:
-            tempLimit = min(c + self.CP_PER_INDEX_1_ENTRY, limit)
+            tempLimit = min((c | (self.CP_PER_INDEX_1_ENTRY - 1)) + 1, limit)
 
             if c <= 0xFFFF:
                 # We're in the BMP
                 if not isSurrogate(c):
-                    i2Block = (c >> self.SHIFT_2)
-
-                    # if tempLimit is above the BMP, limit it to the BMP
-                    if tempLimit > 0x10000:
-                        tempLimit = 0x10000
+                    i2Block = (c >> self.SHIFT_1) << self.SHIFT_1_2
                 elif isSurrogateLead(c):
                     # Enumerate values for lead surrogate code points, not code units:
                     # This special block has half the normal length.
@@ -127,7 +123,7 @@ class UTrie2(object):
                 else:
                     # Switch back to the normal part of the index-2 table.
                     # Enumerate the second half of the surrogates block.
-                    i2Block = 0xDC00 >> self.SHIFT_2
+                    i2Block = 0xD800 >> self.SHIFT_2
                     tempLimit = min(0xE000, limit)
             else:
                 # supplementary code point
@@ -147,34 +143,21 @@ class UTrie2(object):
                 if prevValue != initialValue:
                     if prev < c: yield range(prev, c), prevValue
 
-                    prevBlock = self.dataNullOffset
                     prev = c
                     prevValue = initialValue
 
-                c += self.CP_PER_INDEX_1_ENTRY
+                prevBlock = self.dataNullOffset
+                c = tempLimit
             else:
                 # enumerate data blocks for one index-2 block
-                if c <= 0xFFFF:
-                    # We're in the BMP
-                    i2Start = 0
-                    i2Limit = (tempLimit >> self.SHIFT_2) - i2Block
-
-                    # if we're in the high surrogate range, i2Limit will be negative,
-                    # so we want to just do the high surroaget block
-                    if i2Limit < 0: i2Limit = 0
-                else:
-                    i2Start = (c >> self.SHIFT_2) & self.INDEX_2_MASK
-                    i2Limit = (tempLimit >> self.SHIFT_2) & self.INDEX_2_MASK
-
-                    if (c >> self.SHIFT_1) != (tempLimit >> self.SHIFT_1):
-                        i2Limit = self.INDEX_2_BLOCK_LENGTH
-
-                for i2 in range(i2Start, i2Limit + 1):
+                while c < tempLimit:
+                    i2 = (c >> self.SHIFT_2) & self.INDEX_2_MASK
                     block = self.index[i2Block + i2] << self.INDEX_SHIFT
+                    blockLimit = min((c | self.DATA_MASK) + 1, tempLimit)
 
                     if block == prevBlock and (c - prev) >= self.DATA_BLOCK_LENGTH:
                         # the block is the same as the previous one, and filled with prevValue
-                        c += self.DATA_BLOCK_LENGTH
+                        c = blockLimit
                         continue
 
                     prevBlock = block
@@ -186,10 +169,10 @@ class UTrie2(object):
                             prev = c
                             prevValue = initialValue
 
-                        c += self.DATA_BLOCK_LENGTH
+                        c = blockLimit
                     else:
                         jStart = c & self.DATA_MASK
-                        jLimit = min(self.DATA_BLOCK_LENGTH, jStart + tempLimit - c)
+                        jLimit = jStart + blockLimit - c
                         for j in range(jStart, jLimit):
                             value = valueFunction(self.index[block + j], **valueFunctionArgs)
                             if value != prevValue:
@@ -201,7 +184,7 @@ class UTrie2(object):
                             c += 1
 
         if c > limit:
-            c = limit  # could be higher if in the index2NullOffset
+            c = limit  # could be higher if a whole index-2 block was skipped
         elif c < limit:
             # c == highStart < limit
             value = valueFunction(self.index[self.highValueIndex], **valueFunctionArgs)
-- 
2.43.0


From 63972d9b43813e714bb2ea014a8b6fc176abf2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 09/17] fix: CPTrie.enumerator looped forever, stopped early or
 dropped the high range

---
 UnicodeData/CPTrie.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index 646e0d3..d1b88ec 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -244,21 +244,26 @@ class CPTrie(object):
         return self.data[dataIndex]
 
     def enumerator(self, start: int = 0, limit: int = 0x110000) -> typing.Iterator[tuple[range, typing.Any]]:
-        if start >= 0x110000 or start >= self.highStart:
+        if start >= 0x110000:
             return
 
         prevI3Block = -1
         prevBlock = -1
         prev = start
-        nullValue = self.data[self.dataNullOffset]
+        if self.dataNullOffset < self.dataLength:
+            nullValue = self.data[self.dataNullOffset]
+        else:
+            # there is no null data block
+            nullValue = self.data[self.dataLength - UCPTRIE_HIGH_VALUE_NEG_DATA_OFFSET]
         prevValue = nullValue  # or 0?
+        dataBlockLength = UCPTRIE_FAST_DATA_BLOCK_LENGTH
 
         c = start
         while c < limit and c < self.highStart:
             if c <= 0xFFFF and (self.trieType == UCPTRIE_TYPE_FAST or c <= UCPTRIE_SMALL_MAX):
                 i3Block = 0
                 i3Start = c >> UCPTRIE_FAST_SHIFT
-                # i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
+                i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
                 dataBlockLength = UCPTRIE_FAST_DATA_BLOCK_LENGTH
             else:
                 # use the multi-stage index
@@ -271,7 +276,7 @@ class CPTrie(object):
                     i1 += UCPTRIE_SMALL_INDEX_LENGTH
 
                 i3Block = self.index[self.index[i1] + ((c >> UCPTRIE_SHIFT_2) & UCPTRIE_INDEX_2_MASK)]
-                if i3Block == prevI3Block and (c - start) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
+                if i3Block == prevI3Block and (c - prev) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
                     # The index-3 block is the same as the previous one, and filled with value.
                     assert (c & (UCPTRIE_CP_PER_INDEX_2_ENTRY - 1)) == 0
                     c += UCPTRIE_CP_PER_INDEX_2_ENTRY
@@ -290,11 +295,14 @@ class CPTrie(object):
                     continue
 
                 i3Start = (c >> UCPTRIE_SHIFT_3) & UCPTRIE_INDEX_3_MASK
-                # i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
-                dataBlockLength = UCPTRIE_SMALL_DATA_BLOCK_LENGTH
+                i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
+                if dataBlockLength != UCPTRIE_SMALL_DATA_BLOCK_LENGTH:
+                    # the previous block was longer, so it can't be compared with this one
+                    dataBlockLength = UCPTRIE_SMALL_DATA_BLOCK_LENGTH
+                    prevBlock = -1
 
             # Enumerate data blocks for one index-3 block.
-            for i3 in range(i3Start, dataBlockLength):
+            for i3 in range(i3Start, i3BlockLength):
                 if c >= limit: break
                 if (i3Block & 0x8000) == 0:
                     block = self.index[i3Block + i3]
@@ -305,7 +313,7 @@ class CPTrie(object):
                     block = (self.index[group] << (2 + (2 * gi))) & 0x30000
                     block |= self.index[group + gi + 1]  # C++ code indexes by group++ in previous line
 
-                if block == prevBlock and (c - start) >= dataBlockLength:
+                if block == prevBlock and (c - prev) >= dataBlockLength:
                     # The block is the same as the previous one, and filled with value.
                     assert (c & (dataBlockLength - 1)) == 0
                     c += dataBlockLength
@@ -346,6 +354,10 @@ class CPTrie(object):
             highValue = self.data[di]
             if highValue != prevValue:
                 if prev < c: yield range(prev, c), prevValue
+                prev = c
+                prevValue = highValue
+
+            c = limit
 
         # deliver last range
         if prev < c: yield range(prev, c), prevValue
-- 
2.43.0


From 695e4d0b03906906c97d232f59797b2f2bac1523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:59 +0000
Subject: [PATCH 10/17] fix: isIDIgnorable (and isIDPart, isJavaIDPart) ignored
 the ISO controls

The result for code points up to U+009F was computed but not returned, and U+009F was left out.
---
 UnicodeData/CharProps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index fa061fe..6271d32 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -152,8 +152,8 @@ def isIDPart(c: int) -> bool:
     return (gcMask(gc) & ( GC_ND_MASK | GC_NL_MASK | GC_L_MASK | GC_PC_MASK | GC_MC_MASK | GC_MN_MASK)) != 0 or isIDIgnorable(c)
 
 def isIDIgnorable(c: int) -> bool:
-    if c < 0x009F:
-        isISOControl(c) and not isThatASCIIControlSpace(c)
+    if c <= 0x009F:
+        return isISOControl(c) and not isThatASCIIControlSpace(c)
 
     gc = getGeneralCategory(c)
     return gc == GC_FORMAT_CHAR
-- 
2.43.0


From 9aaa40176e165f9d32295245302be814caaf4a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 11/17] fix: getNumericType returned the general category bits

---
 UnicodeData/CharProps.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 6271d32..9e94874 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -3,6 +3,7 @@ import typing
 from .Utrie2 import UTrie2
 from .CharPropsData import *
 from .uprops_h import *
+from .uchar_h import U_NT_NONE, U_NT_DECIMAL, U_NT_DIGIT, U_NT_NUMERIC
 from .uscript_h import *
 # from .UCDTypeDictionaries import generalCategoryNames as generalCategories
 # from .UCDTypeDictionaries import scriptNames as scriptCodes
@@ -171,7 +172,18 @@ def digitValue(c: int) -> int:
     return value if value <= 9 else -1
 
 def numericTypeFromProps(props: int) -> int:
-    return props & 0x1F
+    ntv = numericTypeValueFromProps(props)
+
+    if ntv == UPROPS_NTV_NONE:
+        return U_NT_NONE
+
+    if ntv < UPROPS_NTV_DIGIT_START:
+        return U_NT_DECIMAL
+
+    if ntv < UPROPS_NTV_NUMERIC_START:
+        return U_NT_DIGIT
+
+    return U_NT_NUMERIC
 
 def getNumericType(c: int) -> int:
     props = propsTrie.get(c)
-- 
2.43.0


From 4e019e8cbb45f11e3132234fb3d77d3c1bff0d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 12/17] fix: getUnicodeProperties read a column that does not
 exist

The first column past the last one was taken from the following vector (or past the end of the table).
---
 UnicodeData/CharProps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 9e94874..6c9e45f 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -21,7 +21,7 @@ def unicodePropertiesFromVecIndex(vecIndex: int, column: int):
     return propsVectors[vecIndex + column]
 
 def getUnicodeProperties(c: int, column: int):
-    if column > propsVectorsColumns:
+    if column >= propsVectorsColumns:
         return 0
 
     vecIndex = propsVectorTrie.get(c)
-- 
2.43.0


From d78abc5b55567c3b35e151a99e543588ee256f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 13/17] fix: CaseProperties.simpleTitleCase was the attribute
 text, not the character

---
 UnicodeData/CaseProperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CaseProperties.py b/UnicodeData/CaseProperties.py
index 3def9bc..42a807d 100644
--- a/UnicodeData/CaseProperties.py
+++ b/UnicodeData/CaseProperties.py
@@ -21,7 +21,7 @@ class CaseProperties(UCDProperties):
 
         self.simpleUpperCase = self.getCodePointsProperty("suc")
         self.simpleLowerCase = self.getCodePointsProperty("slc")
-        self.simpleTitleCase = self.getCharProperty("stc")
+        self.simpleTitleCase = self.getCodePointsProperty("stc")
 
         self.upperCase = self.getCodePointsProperty("uc")
         self.lowerCase = self.getCodePointsProperty("lc")
-- 
2.43.0


From 6e967f3d7be79f84c315d473006b7fada45dfdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 14/17] fix: five script aliases were tuples because of
 trailing commas

---
 UnicodeData/Scripts.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/UnicodeData/Scripts.py b/UnicodeData/Scripts.py
index e3a4649..7093e90 100644
--- a/UnicodeData/Scripts.py
+++ b/UnicodeData/Scripts.py
@@ -48,7 +48,7 @@ USCRIPT_THAANA       = 37  # 'Thaa'
 USCRIPT_THAI         = 38  # 'Thai'
 USCRIPT_TIBETAN      = 39  # 'Tibt'
 USCRIPT_CANADIAN_ABORIGINAL = 40  # 'Cans'
-USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL,
+USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL
 USCRIPT_YI           = 41  # 'Yiii'
 
 # New scripts in Unicode 3.2
@@ -103,17 +103,17 @@ USCRIPT_LATIN_GAELIC                  = 81  # 'Latg'
 USCRIPT_LEPCHA                        = 82  # 'Lepc'
 USCRIPT_LINEAR_A                      = 83  # 'Lina'
 USCRIPT_MANDAIC                       = 84  # 'Mand'
-USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC,
+USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC
 USCRIPT_MAYAN_HIEROGLYPHS             = 85  # 'Maya'
 USCRIPT_MEROITIC_HIEROGLYPHS          = 86  # 'Mero'
-USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS,
+USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS
 USCRIPT_NKO                           = 87  # 'Nkoo'
 USCRIPT_ORKHON                        = 88  # 'Orkh'
 USCRIPT_OLD_PERMIC                    = 89  # 'Perm'
 USCRIPT_PHAGS_PA                      = 90  # 'Phag'
 USCRIPT_PHOENICIAN                    = 91  # 'Phnx'
 USCRIPT_MIAO                          = 92  # 'Plrd'
-USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO,
+USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO
 USCRIPT_RONGORONGO                    = 93  # 'Roro'
 USCRIPT_SARATI                        = 94  # 'Sara'
 USCRIPT_ESTRANGELO_SYRIAC             = 95  # 'Syre'
@@ -167,7 +167,7 @@ USCRIPT_OLD_NORTH_ARABIAN             = 142  # 'Narb'
 USCRIPT_NABATAEAN                     = 143  # 'Nbat'
 USCRIPT_PALMYRENE                     = 144  # 'Palm'
 USCRIPT_KHUDAWADI                     = 145  # 'Sind'
-USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI,
+USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI
 USCRIPT_WARANG_CITI                   = 146  # 'Wara'
 USCRIPT_AFAKA                         = 147  # 'Afak'
 USCRIPT_JURCHEN                       = 148  # 'Jurc'
-- 
2.43.0


From ae088b4332019de7776ba1a49f50cb943dab0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 15/17] fix: five block names were not the short aliases (two
 of them garbled)

---
 UnicodeData/Blocks.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/UnicodeData/Blocks.py b/UnicodeData/Blocks.py
index e3f2af4..19a6189 100644
--- a/UnicodeData/Blocks.py
+++ b/UnicodeData/Blocks.py
@@ -786,7 +786,7 @@ UBLOCK_TANGUT_SUPPLEMENT = 307  # [18D00]
 UBLOCK_YEZIDI = 308  # [10E80]
 
 blockNames = {
-    UBLOCK_NO_BLOCK: "No Block",
+    UBLOCK_NO_BLOCK: "NB",
     UBLOCK_BASIC_LATIN: "ASCII",
     UBLOCK_LATIN_1_SUPPLEMENT: "Latin 1 Sup",
     UBLOCK_LATIN_EXTENDED_A: "Latin Ext A",
@@ -862,9 +862,9 @@ blockNames = {
     UBLOCK_YI_RADICALS: "Yi Radicals",
     UBLOCK_HANGUL_SYLLABLES: "Hangul",
     UBLOCK_HIGH_SURROGATES: "High Surrogates",
-    UBLOCK_HIGH_PRIVATE_USE_SURROGATES: "High Private Use Surrogates",
+    UBLOCK_HIGH_PRIVATE_USE_SURROGATES: "High PU Surrogates",
     UBLOCK_LOW_SURROGATES: "Low Surrogates",
-    UBLOCK_PRIVATE_USE_AREA: "Private Use Area",
+    UBLOCK_PRIVATE_USE_AREA: "PUA",
     UBLOCK_CJK_COMPATIBILITY_IDEOGRAPHS: "CJK Compat Ideographs",
     UBLOCK_ALPHABETIC_PRESENTATION_FORMS: "Alphabetic PF",
     UBLOCK_ARABIC_PRESENTATION_FORMS_A: "Arabic PF A",
@@ -895,8 +895,8 @@ blockNames = {
     UBLOCK_SUPPLEMENTAL_MATHEMATICAL_OPERATORS: "Sup Math Operators",
     UBLOCK_KATAKANA_PHONETIC_EXTENSIONS: "Katakana Ext",
     UBLOCK_VARIATION_SELECTORS: "VS",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Supary Private Use Area A",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Supary Private Use Area B",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Sup PUA A",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Sup PUA B",
     UBLOCK_LIMBU: "Limbu",
     UBLOCK_TAI_LE: "Tai Le",
     UBLOCK_KHMER_SYMBOLS: "Khmer Symbols",
-- 
2.43.0


From 880875a201264a3901f381bda6cdbba8ce51f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 16/17] fix: the word break name of WSegSpace was not the
 official alias

---
 UnicodeData/Boundaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/Boundaries.py b/UnicodeData/Boundaries.py
index 2e70a91..1ce6ca5 100644
--- a/UnicodeData/Boundaries.py
+++ b/UnicodeData/Boundaries.py
@@ -194,7 +194,7 @@ wordBreakNames = {
     WB_E_MODIFIER: "EM",
     WB_GLUE_AFTER_ZWJ: "GAZ",
     WB_ZWJ: "ZWJ",
-    WB_WSEGSPACE: "WSEGSPACE"
+    WB_WSEGSPACE: "WSegSpace"
 }
 
 sentenceBreakNames = {
-- 
2.43.0


From cde33d1ef0dc95094f6294fa694f7921d8ae4bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 17/17] fix: nameIterator skipped algorithmic ranges not
 aligned to a group of 32

---
 UnicodeData/CharNames.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/UnicodeData/CharNames.py b/UnicodeData/CharNames.py
index 59100b4..cf12f20 100644
--- a/UnicodeData/CharNames.py
+++ b/UnicodeData/CharNames.py
@@ -462,13 +462,7 @@ class CharNames(object):
         char = 0
         algRange = 0
         while char < charLimit:
-            group = cls.getGroup(char)
-            if group and char in group.charRange:
-                # group.nameChoice = self.nameChoice
-                for (code, name) in group.nameIterator(nameChoice):
-                    if name: yield (code, name)
-                char = group.charRange.stop
-            elif algRange < len(cls._algorithmicRanges) and cls._algorithmicRanges[algRange].charInRange(char):
+            if algRange < len(cls._algorithmicRanges) and cls._algorithmicRanges[algRange].charInRange(char):
                 algorithmicRange = cls._algorithmicRanges[algRange]
                 # algorithmicRange.nameChoice = self.nameChoice
                 for (code, name) in algorithmicRange.nameIterator(nameChoice):
@@ -476,7 +470,17 @@ class CharNames(object):
                 char = algorithmicRange.charRange.stop
                 algRange += 1
             else:
-                char += LINES_PER_GROUP
+                # The rest of this group, up to the next algorithmic range: ranges need not start
+                # or end at a multiple of LINES_PER_GROUP.
+                limit = (char | GROUP_MASK) + 1
+                if algRange < len(cls._algorithmicRanges) and char < cls._algorithmicRanges[algRange].charRange.start:
+                    limit = min(limit, cls._algorithmicRanges[algRange].charRange.start)
+                group = cls.getGroup(char)
+                if group:
+                    # group.nameChoice = self.nameChoice
+                    for (code, name) in group.nameIterator(nameChoice):
+                        if name and char <= code < limit: yield (code, name)
+                char = limit
 
     @classmethod
     def charFromName(cls, theName: str, nameChoice:int=U_UNICODE_CHAR_NAME) -> int:
-- 
2.43.0

