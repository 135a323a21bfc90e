From 2ce9cf91861d1444b2c30877e2be56c8fca886cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 01/47] fix: integer division and modulo by zero are invalid,
 not a panic

---
 fastval_math.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/fastval_math.go b/fastval_math.go
index 0b7ef9a..0fb5d65 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -462,7 +462,9 @@ func FastValMathDiv(val, val1 FastVal) FastVal {
 			fallthrough
 		case JsonUintValue:
 			uint1Check, valid1 := val1.AsUint()
-			if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
+			if valid1 && uint1Check == 0 {
+				return NewInvalidFastVal()
+			} else if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
 				// Cannot convert to int type
 				return genericFastVal2FloatsOp(val, val1, fastValMathDiv)
 			} else {
@@ -475,6 +477,10 @@ func FastValMathDiv(val, val1 FastVal) FastVal {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
+			int1Check, valid1 := val1.AsInt()
+			if !valid1 || int1Check == 0 {
+				return NewInvalidFastVal()
+			}
 			return genericFastVal2IntsOp(val, val1, fastValMathDivInt)
 		case FloatValue:
 			fallthrough
@@ -532,8 +538,8 @@ func FastValMathMod(val, val1 FastVal) FastVal {
 			fallthrough
 		case JsonUintValue:
 			uint1Check, valid1 := val1.AsUint()
-			if !valid1 || intCheck < 0 && uint1Check > math.MaxInt64 {
-				// Cannot convert to int type
+			if !valid1 || uint1Check == 0 || intCheck < 0 && uint1Check > math.MaxInt64 {
+				// Cannot convert to int type, or division by zero
 				return NewInvalidFastVal()
 			} else {
 				if intCheck >= 0 {
@@ -545,6 +551,10 @@ func FastValMathMod(val, val1 FastVal) FastVal {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
+			int1Check, valid1 := val1.AsInt()
+			if !valid1 || int1Check == 0 {
+				return NewInvalidFastVal()
+			}
 			return genericFastVal2IntsOp(val, val1, fastValMathMod)
 		default:
 			return NewInvalidFastVal()
-- 
2.43.0


From b57756e30e08b9e9bd93d022d666b5590d2c1c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 02/47] fix: integer zero is representable as an unsigned value

---
 fastval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastval.go b/fastval.go
index 9734acb..9309096 100644
--- a/fastval.go
+++ b/fastval.go
@@ -255,7 +255,7 @@ func (val FastVal) AsUint() (uint64, bool) {
 	switch val.dataType {
 	case IntValue:
 		intVal := val.GetInt()
-		if intVal > 0 {
+		if intVal >= 0 {
 			return uint64(intVal), true
 		} else {
 			return 0, false
@@ -266,7 +266,7 @@ func (val FastVal) AsUint() (uint64, bool) {
 		return uint64(val.GetFloat()), false
 	case JsonIntValue:
 		parsedVal, err := strconv.ParseInt(string(val.sliceData), 10, 64)
-		if err == nil && parsedVal > 0 {
+		if err == nil && parsedVal >= 0 {
 			return uint64(parsedVal), true
 		} else {
 			return 0, false
-- 
2.43.0


From 4b495ff673e5302608c53dada825ef97fb5da5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 03/47] fix: absolute value of an integer keeps all of its
 digits

---
 fastval_math.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fastval_math.go b/fastval_math.go
index 0fb5d65..d9854a4 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -49,7 +49,14 @@ func FastValMathAbs(val FastVal) FastVal {
 		if val.IsFloat() {
 			return NewFloatFastVal(math.Abs(floatVal))
 		} else if val.IsInt() {
-			return NewIntFastVal(int64(math.Abs(floatVal)))
+			intVal, valid := val.AsInt()
+			if !valid {
+				return NewInvalidFastVal()
+			}
+			if intVal < 0 {
+				intVal = -intVal
+			}
+			return NewIntFastVal(intVal)
 		}
 	}
 
-- 
2.43.0


From 5425f6bf9868f5319d42827a719414f766fdfc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 04/47] fix: rounding does not go through int, which cannot
 hold every float

---
 fastval_math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastval_math.go b/fastval_math.go
index d9854a4..6faee0a 100644
--- a/fastval_math.go
+++ b/fastval_math.go
@@ -8,9 +8,9 @@ import (
 // 1.10 which did not have the function... Wat?
 func floatMathRound(val float64) float64 {
 	if val < 0 {
-		return float64(int(val - 0.5))
+		return math.Trunc(val - 0.5)
 	}
-	return float64(int(val + 0.5))
+	return math.Trunc(val + 0.5)
 }
 
 var mathDegreeFunc func(float64) float64 = func(rad float64) float64 {
-- 
2.43.0


From 47f1d3a7d759c562e0e159acdaea9825712a734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 05/47] fix: comparison of signed and unsigned integers looks
 at the signed one

---
 fastval.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fastval.go b/fastval.go
index 9309096..5ecc7c0 100644
--- a/fastval.go
+++ b/fastval.go
@@ -754,11 +754,12 @@ func (val FastVal) compareNumerics(other FastVal) (int, bool) {
 		case UintValue:
 			fallthrough
 		case JsonUintValue:
-			intVal, _ := val.AsInt()
+			intVal, valid := val.AsInt()
 			if intVal >= 0 {
 				return val.compareUint(other)
 			} else {
-				return val.compareInt(other)
+				// A negative number is less than any unsigned one
+				return -1, valid
 			}
 		default:
 			return val.compareInt(other)
@@ -770,11 +771,12 @@ func (val FastVal) compareNumerics(other FastVal) (int, bool) {
 		case IntValue:
 			fallthrough
 		case JsonIntValue:
-			intVal, _ := val.AsInt()
+			intVal, valid := other.AsInt()
 			if intVal >= 0 {
 				return val.compareUint(other)
 			} else {
-				return val.compareInt(other)
+				// An unsigned number is greater than any negative one
+				return 1, valid
 			}
 		case FloatValue:
 			fallthrough
-- 
2.43.0


From 8a3529bdf70e2e9575b77d8309e91cd870d2dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 06/47] fix: a number compares with the same kind of number in
 its literal form

---
 fastval.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fastval.go b/fastval.go
index 5ecc7c0..d2a94fd 100644
--- a/fastval.go
+++ b/fastval.go
@@ -51,17 +51,17 @@ const (
 // If a ValueType does not exist in this table, that means there is no possible target conversion
 var ImplicitConvTable = map[ValueType]map[ValueType]bool{
 	// Numerics
-	IntValue: map[ValueType]bool{UintValue: false, JsonUintValue: false, FloatValue: true, JsonFloatValue: true,
+	IntValue: map[ValueType]bool{JsonIntValue: true, UintValue: false, JsonUintValue: false, FloatValue: true, JsonFloatValue: true,
 		StringValue: true, BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true, FalseValue: true},
-	JsonIntValue: map[ValueType]bool{UintValue: false, JsonUintValue: false, FloatValue: true, JsonFloatValue: true,
+	JsonIntValue: map[ValueType]bool{IntValue: true, UintValue: false, JsonUintValue: false, FloatValue: true, JsonFloatValue: true,
 		StringValue: true, BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true, FalseValue: true},
-	UintValue: map[ValueType]bool{IntValue: true, JsonIntValue: true, FloatValue: true, JsonFloatValue: true, StringValue: true,
+	UintValue: map[ValueType]bool{JsonUintValue: true, IntValue: true, JsonIntValue: true, FloatValue: true, JsonFloatValue: true, StringValue: true,
 		BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true, FalseValue: true},
-	JsonUintValue: map[ValueType]bool{IntValue: true, JsonIntValue: true, FloatValue: true, JsonFloatValue: true, StringValue: true,
+	JsonUintValue: map[ValueType]bool{UintValue: true, IntValue: true, JsonIntValue: true, FloatValue: true, JsonFloatValue: true, StringValue: true,
 		BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true, FalseValue: true},
-	FloatValue: map[ValueType]bool{StringValue: true, BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true,
+	FloatValue: map[ValueType]bool{JsonFloatValue: true, StringValue: true, BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true,
 		FalseValue: true},
-	JsonFloatValue: map[ValueType]bool{StringValue: true, BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true,
+	JsonFloatValue: map[ValueType]bool{FloatValue: true, StringValue: true, BinStringValue: true, JsonStringValue: true, NullValue: true, TrueValue: true,
 		FalseValue: true},
 	// Non-Numerics
 	TrueValue: map[ValueType]bool{IntValue: true, JsonIntValue: true, UintValue: true, JsonUintValue: true, FloatValue: true,
-- 
2.43.0


From b631d3ad2c93b7c3a5e807f68d59334cc2d789ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 07/47] fix: a Go string converts to a date by its own text

---
 fastval.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastval.go b/fastval.go
index d2a94fd..46b66f1 100644
--- a/fastval.go
+++ b/fastval.go
@@ -401,7 +401,9 @@ func (val FastVal) AsTime() (*time.Time, bool) {
 	case JsonStringValue:
 		fallthrough
 	case BinStringValue:
-		timeFastVal, err := GetNewTimeFastVal(string(val.sliceData))
+		// A StringValue does not keep its text in sliceData
+		str, _ := val.AsString()
+		timeFastVal, err := GetNewTimeFastVal(str)
 		if err == nil {
 			return timeFastVal.data.(*time.Time), true
 		}
-- 
2.43.0


From e745c93a08aa84ad3b9e38e00db802ab75c7179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 08/47] fix: UTF-16 surrogates only decode as a high one
 followed by an escaped low one

---
 fastlitescape.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fastlitescape.go b/fastlitescape.go
index a752c17..e072092 100644
--- a/fastlitescape.go
+++ b/fastlitescape.go
@@ -73,10 +73,13 @@ func decodeUnicodeEscape(in []byte) (rune, int) {
 	} else if r <= basicMultilingualPlaneOffset && !isUTF16EncodedRune(r) {
 		// Valid Unicode escape in Basic Multilingual Plane
 		return r, 6
-	} else if r2, ok := decodeSingleUnicodeEscape(in[6:]); !ok { // Note: previous decodeSingleUnicodeEscape success guarantees at least 6 bytes remain
+	} else if r >= lowSurrogateOffset {
+		// UTF16 "low surrogate" without a preceding "high surrogate"
+		return utf8.RuneError, -1
+	} else if r2, ok := decodeSingleUnicodeEscape(in[6:]); !ok || in[6] != '\\' || in[7] != 'u' { // Note: previous decodeSingleUnicodeEscape success guarantees at least 6 bytes remain
 		// UTF16 "high surrogate" without manditory valid following Unicode escape for the "low surrogate"
 		return utf8.RuneError, -1
-	} else if r2 < lowSurrogateOffset {
+	} else if r2 < lowSurrogateOffset || r2 > basicMultilingualPlaneReservedOffset {
 		// Invalid UTF16 "low surrogate"
 		return utf8.RuneError, -1
 	} else {
-- 
2.43.0


From fc06d7b9659592bb208429b136d236899ad506f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 09/47] fix: Reset clears the collation status of the previous
 document

---
 fastMatcher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 6ab677f..4b9fcd8 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -34,6 +34,7 @@ func (m *FastMatcher) Reset() {
 		m.slots[i] = emptySlotData
 	}
 	m.buckets.Reset()
+	m.collateUsed = false
 }
 
 func (m *FastMatcher) leaveValue() error {
-- 
2.43.0


From 11be354971026c95a9aaf54ae651d1cfa82a014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 10/47] fix: a slot nothing was stored in does not denote the
 start of the document

---
 fastMatcher.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 4b9fcd8..ae3a669 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -98,6 +98,11 @@ func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
 	savePos := m.tokens.Position()
 
 	slotInfo := m.slots[slot-1]
+	if slotInfo == emptySlotData {
+		// Nothing was stored for this slot in the current document
+		return value
+	}
+
 	m.tokens.Seek(slotInfo.start)
 	token, tokenData, _, _ := m.tokens.Step()
 
@@ -527,6 +532,10 @@ func (m *FastMatcher) matchAfter(node *AfterNode) error {
 	for _, loop := range node.Loops {
 		if slot, ok := loop.Target.(SlotRef); ok {
 			slotInfo := m.slots[slot.Slot-1]
+			if slotInfo == emptySlotData {
+				// The array to loop over does not exist in the document
+				continue
+			}
 
 			m.tokens.Seek(slotInfo.start)
 			token, tokenData, _, err := m.tokens.Step()
-- 
2.43.0


From 6c3551d2e3023679988c1e5fc645ae45e27ba1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 11/47] fix: conditions on an empty object or array are
 evaluated

---
 fastMatcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index ae3a669..13358b8 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -757,7 +757,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 
 		// Keep this here to catch any empty array or empty objs
 		if token == endToken {
-			return nil, true
+			return nil, false
 		}
 
 		// TODO(brett19): These byte-string conversion pieces are a bit wierd
-- 
2.43.0


From 4727639d94742e0ceed046151494e4e21950e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 12/47] fix: an array element does not see values stored for
 the element before it

---
 fastMatcher.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/fastMatcher.go b/fastMatcher.go
index 13358b8..1307b7b 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -458,6 +458,9 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 		// of the loop do not impact the results of this iteration
 		m.buckets.ResetNode(loopBucketIdx)
 
+		// Values stored while processing the previous element do not belong to this one
+		m.resetSlots(loop.Node)
+
 		// Run the execution node for this element of the array.
 		err = m.matchExec(token, tokenData, tokenDataLen, loop.Node)
 		if err != nil {
@@ -525,6 +528,24 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 	return nil
 }
 
+// resetSlots forgets the values that were stored for a node and everything below it.
+func (m *FastMatcher) resetSlots(node *ExecNode) {
+	if node.StoreId > 0 {
+		m.slots[node.StoreId-1] = emptySlotData
+	}
+	for _, elem := range node.Elems {
+		m.resetSlots(elem)
+	}
+	for i := range node.Loops {
+		m.resetSlots(node.Loops[i].Node)
+	}
+	if node.After != nil {
+		for i := range node.After.Loops {
+			m.resetSlots(node.After.Loops[i].Node)
+		}
+	}
+}
+
 func (m *FastMatcher) matchAfter(node *AfterNode) error {
 	savePos := m.tokens.Position()
 
-- 
2.43.0


From 14839a364e821a52fe5acc656345c95b8eca1b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 13/47] fix: conditions an array element does not reach are
 false for that element

---
 bintree.go     | 14 ++++++++++++++
 fastMatcher.go |  4 ++++
 2 files changed, 18 insertions(+)

diff --git a/bintree.go b/bintree.go
index eee2bcd..0ea7968 100644
--- a/bintree.go
+++ b/bintree.go
@@ -273,6 +273,20 @@ func (state *binTreeState) Resolve() {
 	}
 }
 
+// ResolveNode does for the subtree of a node what Resolve does for the whole tree.
+func (state *binTreeState) ResolveNode(index int) {
+	defNode := state.tree.data[index]
+	if !state.IsResolved(index) && binTreeNodeTypeHasRight(defNode.NodeType) {
+		state.ResolveNode(defNode.Right)
+	}
+	if !state.IsResolved(index) && binTreeNodeTypeHasLeft(defNode.NodeType) {
+		state.ResolveNode(defNode.Left)
+	}
+	if !state.IsResolved(index) {
+		state.MarkNode(index, false)
+	}
+}
+
 func (state *binTreeState) Reset() {
 	state.stallIndex = 0
 	for i := range state.data {
diff --git a/fastMatcher.go b/fastMatcher.go
index 1307b7b..e2baeb7 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -467,6 +467,10 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 			return err
 		}
 
+		// Conditions this element did not reach are false, so that operators
+		// such as NOT resolve for it.
+		m.buckets.ResolveNode(loopBucketIdx)
+
 		iterationMatched := m.buckets.IsTrue(loopBucketIdx)
 		if loop.Mode == LoopTypeAny {
 			if iterationMatched {
-- 
2.43.0


From 12bf691d6d4ac131bc3b018091eb87948ef32a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 14/47] fix: malformed documents are reported as errors instead
 of panics or silently

---
 fastMatcher.go | 58 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index e2baeb7..8abf7ca 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -3,6 +3,7 @@
 package gojsonsm
 
 import (
+	"errors"
 	"fmt"
 )
 
@@ -63,7 +64,7 @@ func (m *FastMatcher) leaveValue() error {
 			}
 			depth--
 		case tknEnd:
-			panic("unexpected EOF")
+			return errors.New("unexpected end of input")
 		}
 	}
 }
@@ -89,7 +90,7 @@ func (m *FastMatcher) skipValue(token tokenType) error {
 	case tknArrayStart:
 		return m.leaveValue()
 	}
-	panic(fmt.Sprintf("unexpected value: %v", token))
+	return fmt.Errorf("unexpected value: %s", tokenToText(token))
 }
 
 func (m *FastMatcher) literalFromSlot(slot SlotID) FastVal {
@@ -406,8 +407,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 	if m.buckets.IsResolved(loopBucketIdx) {
 		// If the bucket for this op is already resolved  in the binary tree,
 		// we don't need to perform the op and can just skip it.
-		m.skipValue(token)
-		return nil
+		return m.skipValue(token)
 	}
 
 	// We need to keep track of the overall loop result value while the bin tree
@@ -442,7 +442,7 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				break
 			}
 			if token != tknListDelim {
-				panic(fmt.Sprintf("expected array element delimiter got %s", tokenToText(token)))
+				return fmt.Errorf("expected array element delimiter got %s", tokenToText(token))
 			}
 		}
 
@@ -479,7 +479,9 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = true
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				if err := m.leaveValue(); err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeEvery {
@@ -489,7 +491,9 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				if err := m.leaveValue(); err != nil {
+					return err
+				}
 				break
 			}
 		} else if loop.Mode == LoopTypeAnyEvery {
@@ -499,7 +503,9 @@ func (m *FastMatcher) matchLoop(token tokenType, tokenData []byte, loop *LoopNod
 				loopState = false
 
 				// Skip the remainder of the array and leave the loop
-				m.leaveValue()
+				if err := m.leaveValue(); err != nil {
+					return err
+				}
 				break
 			} else {
 				// If we encounter a truthy value, we have satisfied the 'any'
@@ -564,6 +570,9 @@ func (m *FastMatcher) matchAfter(node *AfterNode) error {
 
 			m.tokens.Seek(slotInfo.start)
 			token, tokenData, _, err := m.tokens.Step()
+			if err != nil {
+				return err
+			}
 
 			// run the loop matcher
 			err = m.matchLoop(token, tokenData, &loop)
@@ -630,11 +639,17 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		objStartPos := m.tokens.Position() - 1 /* to include the objStart itself*/
 		if len(node.Elems) == 0 {
 			// If we have no element handlers, we can just skip the whole thing...
-			m.skipValue(token)
+			err := m.skipValue(token)
+			if err != nil {
+				return err
+			}
 		} else {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
 			if err == nil && node.After != nil {
-				m.matchAfter(node.After)
+				err = m.matchAfter(node.After)
+				if err != nil {
+					return err
+				}
 			}
 
 			if shouldReturn {
@@ -712,11 +727,14 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 			}
 		}
 	} else {
-		panic(fmt.Sprintf("invalid token read - tokenType: %v data: %v", token, string(tokenData)))
+		return fmt.Errorf("invalid token read - tokenType: %s data: %s", tokenToText(token), string(tokenData))
 	}
 
 	if node.After != nil {
-		m.matchAfter(node.After)
+		err := m.matchAfter(node.After)
+		if err != nil {
+			return err
+		}
 
 		if m.buckets.IsResolved(0) {
 			return nil
@@ -771,7 +789,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 				arrayIndex++
 			// nothing
 			default:
-				panic(fmt.Sprintf("expected object field element delimiter, received: %v", token))
+				return fmt.Errorf("expected object field element delimiter, received: %s", tokenToText(token)), true
 			}
 		}
 
@@ -800,7 +818,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		default:
 			// If it's an array, it's possible that we're grabbing a literal like int or float, and we should not panic
 			if !arrayMode {
-				panic(fmt.Sprintf("expected literal, received: %v", token))
+				return fmt.Errorf("expected literal, received: %s", tokenToText(token)), true
 			}
 		}
 
@@ -814,7 +832,7 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 			}
 
 			if token != tknObjectKeyDelim {
-				panic(fmt.Sprintf("expected object key delimiter: got %v, %v", token, string(tokenData)))
+				return fmt.Errorf("expected object key delimiter: got %s, %s", tokenToText(token), string(tokenData)), true
 			}
 
 			token, tokenData, tokenDataLen, err = m.tokens.Step()
@@ -827,7 +845,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		if keyElem, ok := node.Elems[keyString]; ok {
 			// Run the execution node that applies to this particular
 			// key of the object.
-			m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			err := m.matchExec(token, tokenData, tokenDataLen, keyElem)
+			if err != nil {
+				return err, true
+			}
 
 			// Check if running this keys execution has resolved the entirety
 			// of the expression, if so we can leave immediately.
@@ -837,7 +858,10 @@ func (m *FastMatcher) matchObjectOrArray(token tokenType, tokenData []byte, node
 		} else {
 			// If we don't have any parse requirements for this key in
 			// the object, we can just skip its value and continue
-			m.skipValue(token)
+			err := m.skipValue(token)
+			if err != nil {
+				return err, true
+			}
 		}
 	}
 	return nil, false
-- 
2.43.0


From a27a184133b414216763e139f88ff89107235288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 15/47] fix: comparisons do not share a conversion buffer
 between matchers

---
 fastval.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/fastval.go b/fastval.go
index 46b66f1..b24b58f 100644
--- a/fastval.go
+++ b/fastval.go
@@ -87,7 +87,6 @@ var FalseValueBytes = []byte(FalseString)
 var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[T|t][R|r][U|u][E|e]$")
 var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[F|f][A|a][L|l][S|s][E|e]$")
 
-var toJsonStringBuffer []byte
 
 type FastVal struct {
 	dataType    ValueType
@@ -425,26 +424,18 @@ func (val FastVal) ToBinString() (FastVal, error) {
 	return val, errors.New("invalid type coercion")
 }
 
-// The following reuse an internal buffer so this should be hidden from outside callers
-// Internally, this must be called only once per comparison, and should be used for implicit comversion
-// (i.e. no double implicit conversion to string from the following 3 types)
+// The following should be used for implicit comversion
 func (val FastVal) toJsonStringInternal() (FastVal, error) {
 	val, err := val.ToJsonString()
 
 	if err != nil {
 		switch val.dataType {
 		case UintValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendUint(toJsonStringBuffer, val.GetUint(), 10)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendUint(nil, val.GetUint(), 10)), nil
 		case IntValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendInt(toJsonStringBuffer, val.GetInt(), 10)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendInt(nil, val.GetInt(), 10)), nil
 		case FloatValue:
-			toJsonStringBuffer = toJsonStringBuffer[:0]
-			toJsonStringBuffer = strconv.AppendFloat(toJsonStringBuffer, val.GetFloat(), 'E', -1, 64)
-			return NewJsonStringFastVal(toJsonStringBuffer), nil
+			return NewJsonStringFastVal(strconv.AppendFloat(nil, val.GetFloat(), 'E', -1, 64)), nil
 		}
 	}
 
-- 
2.43.0


From 6d19441a1894ee01a5081530ac26173fda458b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 16/47] fix: variables of enclosing loops are found

---
 transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index b3fb9e7..64ce1ab 100644
--- a/transform.go
+++ b/transform.go
@@ -155,7 +155,7 @@ func (t *Transformer) getContext(varID VariableID) *compileContext {
 		return nil
 	}
 
-	for i := len(t.ContextStack) - 1; i >= 0; i++ {
+	for i := len(t.ContextStack) - 1; i >= 0; i-- {
 		if t.ContextStack[i].Var == varID {
 			return t.ContextStack[i]
 		}
-- 
2.43.0


From 640d85605583b61aabc8abc815fb37418d85aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 17/47] fix: no access past the end of the shorter of two field
 paths

---
 transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index 64ce1ab..1f1037b 100644
--- a/transform.go
+++ b/transform.go
@@ -205,7 +205,7 @@ PathLoop:
 	for j := 0; j < len(basePath); j++ {
 		for i := 0; i < len(contextFields); i++ {
 			deepField := contextFields[i]
-			if len(deepField.Path) < j || deepField.Path[j] != basePath[j] {
+			if len(deepField.Path) <= j || deepField.Path[j] != basePath[j] {
 				break PathLoop
 			}
 		}
-- 
2.43.0


From 0d9669d025eb781c7c57334e478c47f7230b12a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 18/47] fix: field collection handles every kind of condition

---
 expression_utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression_utils.go b/expression_utils.go
index 2a911c6..62718be 100644
--- a/expression_utils.go
+++ b/expression_utils.go
@@ -94,6 +94,10 @@ func fetchExprFieldRefsRecurse(expr Expression, loopVars []VariableID, fields []
 	case GreaterEqualsExpr:
 		fields = fetchExprFieldRefsRecurse(expr.Lhs, loopVars, fields)
 		fields = fetchExprFieldRefsRecurse(expr.Rhs, loopVars, fields)
+	case TrueExpr:
+	case FalseExpr:
+	case NotExistsExpr:
+		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
 	case ExistsExpr:
 		fields = fetchExprFieldRefsRecurse(expr.SubExpr, loopVars, fields)
 	case LikeExpr:
-- 
2.43.0


From 86df95d2d320a98f9694146c49ccf05b9e7634b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 19/47] fix: statistics handle every kind of expression

---
 expressionstats.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/expressionstats.go b/expressionstats.go
index fe2e5a6..e002239 100644
--- a/expressionstats.go
+++ b/expressionstats.go
@@ -36,6 +36,15 @@ func (stats *ExpressionStats) scanOne(expr Expression, loopDepth int) error {
 		stats.NumFields++
 	case ValueExpr:
 		stats.NumValues++
+	case RegexExpr, PcreExpr, TimeExpr:
+		stats.NumValues++
+	case TrueExpr, FalseExpr:
+		stats.NumValues++
+	case NotExpr:
+		stats.scanOne(expr.SubExpr, loopDepth)
+	case LikeExpr:
+		stats.scanOne(expr.Lhs, loopDepth)
+		stats.scanOne(expr.Rhs, loopDepth)
 	case FuncExpr:
 		for _, subexpr := range expr.Params {
 			stats.scanOne(subexpr, loopDepth)
-- 
2.43.0


From 8bc73f69d846a33885481cef0a3990e8d6bdb255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 20/47] fix: compaction does not fold loops whose value depends
 on the array

---
 expression_compact.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/expression_compact.go b/expression_compact.go
index e292482..13bf364 100644
--- a/expression_compact.go
+++ b/expression_compact.go
@@ -42,21 +42,15 @@ func compactExpressionAnd(expr AndExpr) Expression {
 
 func compactExpressionAnyIn(expr AnyInExpr) Expression {
 	switch expr.SubExpr.(type) {
-	case TrueExpr:
-		return TrueExpr{}
 	case FalseExpr:
 		return FalseExpr{}
 	}
+	// With a body that is always true this depends on the array having elements
 	return expr
 }
 
 func compactExpressionEveryIn(expr EveryInExpr) Expression {
-	switch expr.SubExpr.(type) {
-	case TrueExpr:
-		return TrueExpr{}
-	case FalseExpr:
-		return FalseExpr{}
-	}
+	// Whatever the body, this depends on the array being there, or being empty
 	return expr
 }
 
-- 
2.43.0


From ac03e0d80b04d0a52c9e3aad0a4c6ac4089f0a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 21/47] fix: constants inside of a rule have their value

---
 transform.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/transform.go b/transform.go
index 1f1037b..fa64625 100644
--- a/transform.go
+++ b/transform.go
@@ -576,6 +576,17 @@ func (t *Transformer) transformOne(expr Expression) *ExecNode {
 		return t.transformGreaterEquals(expr)
 	case LikeExpr:
 		return t.transformLike(expr)
+	case TrueExpr:
+		// A check for the value being processed, which is always there
+		baseNode := t.pickBaseNode(expr)
+		baseNode.AddOp(OpNode{
+			t.ActiveBucketIdx,
+			OpTypeExists,
+			nil,
+			nil,
+		})
+	case FalseExpr:
+		// Never becomes true
 	}
 	return nil
 }
-- 
2.43.0


From fdac8492616fe0bf32726f795d1bbc5212208f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 22/47] fix: constant expressions have their verdict

---
 fastMatcher.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index 8abf7ca..ce568e9 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -879,6 +879,11 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 		return false, err
 	}
 
+	if m.def.ParseNode == nil {
+		// All of the expressions are constants
+		return m.alwaysMatches(), nil
+	}
+
 	err = m.matchExec(token, tokenData, tokenDataLen, m.def.ParseNode)
 	if err != nil {
 		return false, err
@@ -888,7 +893,17 @@ func (m *FastMatcher) Match(data []byte) (bool, error) {
 	// operators such as NOT and NEOR to correctly be resolved.
 	m.buckets.Resolve()
 
-	return m.buckets.IsTrue(0), nil
+	return m.buckets.IsTrue(0) || m.alwaysMatches(), nil
+}
+
+// alwaysMatches tells whether one of the expressions is constantly true.
+func (m *FastMatcher) alwaysMatches() bool {
+	for _, binTreeIdx := range m.def.MatchBuckets {
+		if binTreeIdx == AlwaysTrueIdent {
+			return true
+		}
+	}
+	return false
 }
 
 func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
@@ -902,6 +917,9 @@ func (m *FastMatcher) MatchWithStatus(data []byte) (bool, int, error) {
 
 func (m *FastMatcher) ExpressionMatched(expressionIdx int) bool {
 	binTreeIdx := m.def.MatchBuckets[expressionIdx]
+	if binTreeIdx == AlwaysTrueIdent || binTreeIdx == AlwaysFalseIdent {
+		return binTreeIdx == AlwaysTrueIdent
+	}
 	return m.buckets.IsResolved(binTreeIdx) &&
 		m.buckets.IsTrue(binTreeIdx)
 }
-- 
2.43.0


From e4c675f920310f598e1b395cb453163a3a043a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 23/47] fix: a loop over an outer array inside of a loop
 compiles

---
 transform.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index fa64625..924ece9 100644
--- a/transform.go
+++ b/transform.go
@@ -279,6 +279,27 @@ func (t *Transformer) pickBaseNode(expr Expression) nodeRef {
 	}
 }
 
+// pickLoopBaseNode picks the place for a loop over the array inExpr.
+func (t *Transformer) pickLoopBaseNode(expr, inExpr Expression) nodeRef {
+	var currentContext *compileContext
+	if len(t.ContextStack) > 0 {
+		currentContext = t.ContextStack[len(t.ContextStack)-1]
+	}
+
+	field, ok := inExpr.(FieldExpr)
+	if ok && t.getContext(field.Root) != currentContext {
+		// The array belongs to an outer context.  The loop has to run over its
+		// stored value, once everything in this context has been seen.
+		baseNode := t.getExecNode(resolvedFieldRef{Context: currentContext})
+		return nodeRef{
+			node:  nil,
+			after: t.getAfterNode(baseNode),
+		}
+	}
+
+	return t.pickBaseNode(expr)
+}
+
 func (t *Transformer) makeDataRefRecurse(expr Expression, context nodeRef, isRoot bool) (DataRef, error) {
 	switch expr := expr.(type) {
 	case FieldExpr:
@@ -420,7 +441,7 @@ func (t *Transformer) transformAnd(expr AndExpr) *ExecNode {
 }
 
 func (t *Transformer) transformLoop(expr Expression, loopType LoopType, varID VariableID, inExpr, subExpr Expression) *ExecNode {
-	baseNode := t.pickBaseNode(expr)
+	baseNode := t.pickLoopBaseNode(expr, inExpr)
 
 	newNode := &ExecNode{}
 
-- 
2.43.0


From b51da2504243acc5aa87789b70dafbe0764c9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 24/47] fix: element conditions of an array that is also looped
 over are evaluated

---
 fastMatcher.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/fastMatcher.go b/fastMatcher.go
index ce568e9..3bb06a4 100644
--- a/fastMatcher.go
+++ b/fastMatcher.go
@@ -676,23 +676,27 @@ func (m *FastMatcher) matchExec(token tokenType, tokenData []byte, tokenDataLen
 		}
 	} else if token == tknArrayStart {
 		arrayStartPos := m.tokens.Position() - 1 // Should be -1 to include the [
-		if len(node.Loops) == 0 {
+
+		// Lets save where the beginning of the array is so that for each
+		// loop entry, we can easily revert back to the beginning of the
+		// array to process the elements.
+		savePos := m.tokens.Position()
+
+		// Individual elements may be needed in addition to looping over them
+		matchElems := len(node.Loops) == 0 || len(node.Elems) > 0
+		if matchElems {
 			err, shouldReturn := m.matchObjectOrArray(token, tokenData, node)
 			if shouldReturn {
 				return err
 			}
-		} else {
-			// Lets save where the beginning of the array is so that for each
-			// loop entry, we can easily revert back to the beginning of the
-			// array to process the elements.
-			savePos := m.tokens.Position()
-
+		}
+		if len(node.Loops) > 0 {
 			for loopIdx, loop := range node.Loops {
 				if loop.Target != nil {
 					panic("loops must always target the active state")
 
 				}
-				if loopIdx != 0 {
+				if loopIdx != 0 || matchElems {
 					// If this is not the first loop, we will need to reset back to the
 					// begining of the array the loops are scanning.  In the future, perhaps
 					// we can add support for parallel ExecNode handling and do it in one pass.
-- 
2.43.0


From fac65e803854885d0dc5c389aff20532baa08430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 25/47] fix: date literals are accepted exactly when they can
 be evaluated

---
 fastval_date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastval_date.go b/fastval_date.go
index a058fd9..2a80e5e 100644
--- a/fastval_date.go
+++ b/fastval_date.go
@@ -17,8 +17,8 @@ var iso8601CompleteDate *regexp.Regexp = regexp.MustCompile(`^(19|20)\d\d[- /.](
 var cbSampleDateFormat *regexp.Regexp = regexp.MustCompile(`^((19|20)\d\d[- /.](0[1-9]|1[012])[- /.](0[1-9]|[12][0-9]|3[01])) +(([0-1][0-9]|[2][0-3]):[0-5][0-9]:[0-5][0-9])$`)
 
 func validTimeChecker(s string) bool {
-	_, err := time.Parse(time.RFC3339, s)
-	return err == nil || iso8601Year.MatchString(s) || iso8601YearAndMonth.MatchString(s) || iso8601CompleteDate.MatchString(s)
+	_, err := time.Parse(time.RFC3339, isoToRfc(s))
+	return err == nil
 }
 
 func isoToRfc(str string) string {
-- 
2.43.0


From 542605fc43c11f44419213979355bd437ae8685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 26/47] fix: JSON rules of the wrong shape are rejected instead
 of panicking

---
 expression_json.go | 63 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 7 deletions(-)

diff --git a/expression_json.go b/expression_json.go
index 36ca66e..1eab4c5 100644
--- a/expression_json.go
+++ b/expression_json.go
@@ -5,9 +5,16 @@ package gojsonsm
 import (
 	"encoding/json"
 	"errors"
+	"regexp"
 )
 
 func parseJsonValue(data []interface{}) (Expression, error) {
+	switch data[1].(type) {
+	case nil, bool, float64, string:
+	default:
+		return nil, errors.New("invalid value expression format")
+	}
+
 	return ValueExpr{
 		data[1],
 	}, nil
@@ -34,12 +41,17 @@ func parseJsonField(data []interface{}) (Expression, error) {
 func parseJsonFunc(data []interface{}) (Expression, error) {
 	var out FuncExpr
 	pos := 1
-	if funcName, ok := data[pos].(string); ok {
-		out.FuncName = funcName
-		pos++
+	funcName, ok := data[pos].(string)
+	if !ok {
+		return nil, errors.New("invalid func expression name format")
 	}
+	out.FuncName = funcName
+	pos++
 	for ; pos < len(data); pos++ {
-		paramData := data[pos].([]interface{})
+		paramData, ok := data[pos].([]interface{})
+		if !ok {
+			return nil, errors.New("invalid func expression parameter format")
+		}
 		param, err := parseJsonSubexpr(paramData)
 		if err != nil {
 			return nil, err
@@ -277,27 +289,64 @@ func parseJsonLike(data []interface{}) (Expression, error) {
 }
 
 func parseJsonRegex(data []interface{}) (Expression, error) {
+	regexStr, ok := data[1].(string)
+	if !ok {
+		return nil, errors.New("invalid regex expression format")
+	}
+	if _, err := regexp.Compile(regexStr); err != nil {
+		return nil, err
+	}
 	return RegexExpr{
-		data[1],
+		regexStr,
 	}, nil
 }
 
 func parseJsonTime(data []interface{}) (Expression, error) {
-	if dateStr, ok := data[1].(string); ok && !validTimeChecker(dateStr) {
+	dateStr, ok := data[1].(string)
+	if !ok || !validTimeChecker(dateStr) {
 		return nil, ErrorInvalidTimeFormat
 	}
 	return TimeExpr{
-		data[1],
+		dateStr,
 	}, nil
 }
 
+// Number of elements of the expressions that have a fixed number of them
+var jsonExprLens = map[string]int{
+	"value":         2,
+	"not":           2,
+	"anyin":         4,
+	"everyin":       4,
+	"anyeveryin":    4,
+	"exists":        2,
+	"notexists":     2,
+	"equals":        3,
+	"notequals":     3,
+	"lessthan":      3,
+	"lessequals":    3,
+	"greaterthan":   3,
+	"greaterequals": 3,
+	"like":          3,
+	"regex":         2,
+	"time":          2,
+}
+
 func parseJsonSubexpr(data []interface{}) (Expression, error) {
+	if len(data) == 0 {
+		return nil, errors.New("invalid empty expression")
+	}
+
 	exprType, ok := data[0].(string)
 	if !ok {
 
 		return nil, errors.New("invalid expression type format")
 	}
 
+	exprLen, fixedLen := jsonExprLens[exprType]
+	if len(data) < 2 || fixedLen && len(data) != exprLen {
+		return nil, errors.New("invalid number of elements in expression")
+	}
+
 	switch exprType {
 	case "value":
 		return parseJsonValue(data)
-- 
2.43.0


From 6f19c3ed854f89e062f7cb0a96761d3234fb1e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 27/47] fix: JSON rules that cannot be compiled or evaluated
 are rejected when parsed

---
 expression_json.go | 141 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 139 insertions(+), 2 deletions(-)

diff --git a/expression_json.go b/expression_json.go
index 1eab4c5..012df49 100644
--- a/expression_json.go
+++ b/expression_json.go
@@ -25,6 +25,9 @@ func parseJsonField(data []interface{}) (Expression, error) {
 	pos := 1
 	if dataRoot, ok := data[pos].(float64); ok {
 		out.Root = VariableID(dataRoot)
+		if out.Root < 0 || float64(out.Root) != dataRoot {
+			return nil, errors.New("invalid field expression variable format")
+		}
 		pos++
 	}
 	for ; pos < len(data); pos++ {
@@ -225,7 +228,7 @@ func parseJsonAnd(data []interface{}) (Expression, error) {
 
 func parseJsonLoop(data []interface{}) (VariableID, Expression, Expression, error) {
 	varId, ok := data[1].(float64)
-	if !ok {
+	if !ok || VariableID(varId) <= 0 || float64(VariableID(varId)) != varId {
 		return 0, nil, nil, errors.New("invalid anyin expression variable format")
 	}
 
@@ -393,11 +396,145 @@ func parseJsonSubexpr(data []interface{}) (Expression, error) {
 	return nil, errors.New("invalid expression type")
 }
 
+// Number of parameters of the functions that can be evaluated
+var jsonFuncParams = map[string]int{
+	DateFunc:        1,
+	MathFuncAbs:     1,
+	MathFuncAcos:    1,
+	MathFuncAsin:    1,
+	MathFuncAtan:    1,
+	MathFuncAtan2:   2,
+	MathFuncCeil:    1,
+	MathFuncCos:     1,
+	MathFuncDegrees: 1,
+	MathFuncExp:     1,
+	MathFuncFloor:   1,
+	MathFuncLog:     1,
+	MathFuncLn:      1,
+	MathFuncPow:     2,
+	MathFuncRadians: 1,
+	MathFuncRound:   1,
+	MathFuncSin:     1,
+	MathFuncSqrt:    1,
+	MathFuncTan:     1,
+	MathFuncAdd:     2,
+	MathFuncSub:     2,
+	MathFuncMul:     2,
+	MathFuncDiv:     2,
+	MathFuncMod:     2,
+	MathFuncNeg:     1,
+}
+
+// checkJsonOperand makes sure that expr has a value to compare, given the
+// loop variables that can be used.
+func checkJsonOperand(expr Expression, vars []VariableID) error {
+	switch expr := expr.(type) {
+	case FieldExpr:
+		if expr.Root == 0 {
+			return nil
+		}
+		for _, varID := range vars {
+			if varID == expr.Root {
+				return nil
+			}
+		}
+		return errors.New("field of an unknown variable")
+	case ValueExpr, RegexExpr, TimeExpr:
+		return nil
+	case FuncExpr:
+		numParams, ok := jsonFuncParams[expr.FuncName]
+		if !ok || len(expr.Params) != numParams {
+			return errors.New("unknown function or wrong number of parameters")
+		}
+		for _, param := range expr.Params {
+			if err := checkJsonOperand(param, vars); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+	return errors.New("expression cannot be used as a value")
+}
+
+// checkJsonCondition makes sure that expr is true or false, given the loop
+// variables that can be used.
+func checkJsonCondition(expr Expression, vars []VariableID) error {
+	checkOperands := func(operands ...Expression) error {
+		for _, operand := range operands {
+			if err := checkJsonOperand(operand, vars); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+	checkLoop := func(varID VariableID, inExpr, subExpr Expression) error {
+		if _, ok := inExpr.(FieldExpr); !ok {
+			return errors.New("loops need a field to run over")
+		}
+		if err := checkJsonOperand(inExpr, vars); err != nil {
+			return err
+		}
+		return checkJsonCondition(subExpr, append(vars[:len(vars):len(vars)], varID))
+	}
+
+	switch expr := expr.(type) {
+	case NotExpr:
+		return checkJsonCondition(expr.SubExpr, vars)
+	case OrExpr:
+		for _, subExpr := range expr {
+			if err := checkJsonCondition(subExpr, vars); err != nil {
+				return err
+			}
+		}
+		return nil
+	case AndExpr:
+		for _, subExpr := range expr {
+			if err := checkJsonCondition(subExpr, vars); err != nil {
+				return err
+			}
+		}
+		return nil
+	case AnyInExpr:
+		return checkLoop(expr.VarId, expr.InExpr, expr.SubExpr)
+	case EveryInExpr:
+		return checkLoop(expr.VarId, expr.InExpr, expr.SubExpr)
+	case AnyEveryInExpr:
+		return checkLoop(expr.VarId, expr.InExpr, expr.SubExpr)
+	case ExistsExpr:
+		return checkOperands(expr.SubExpr)
+	case NotExistsExpr:
+		return checkOperands(expr.SubExpr)
+	case EqualsExpr:
+		return checkOperands(expr.Lhs, expr.Rhs)
+	case NotEqualsExpr:
+		return checkOperands(expr.Lhs, expr.Rhs)
+	case LessThanExpr:
+		return checkOperands(expr.Lhs, expr.Rhs)
+	case LessEqualsExpr:
+		return checkOperands(expr.Lhs, expr.Rhs)
+	case GreaterThanExpr:
+		return checkOperands(expr.Lhs, expr.Rhs)
+	case GreaterEqualsExpr:
+		return checkOperands(expr.Lhs, expr.Rhs)
+	case LikeExpr:
+		return checkOperands(expr.Lhs, expr.Rhs)
+	}
+	return errors.New("expression cannot be used as a condition")
+}
+
 func ParseJsonExpression(data []byte) (Expression, error) {
 	var parsedData []interface{}
 	err := json.Unmarshal(data, &parsedData)
 	if err != nil {
 		return nil, err
 	}
-	return parseJsonSubexpr(parsedData)
+	expr, err := parseJsonSubexpr(parsedData)
+	if err != nil {
+		return nil, err
+	}
+	err = checkJsonCondition(expr, nil)
+	if err != nil {
+		return nil, err
+	}
+	return expr, nil
 }
-- 
2.43.0


From 72df1da73826d5b15956c93bf466d3784497847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 28/47] fix: texts containing a bar are not boolean values

---
 fastval.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastval.go b/fastval.go
index b24b58f..84d5409 100644
--- a/fastval.go
+++ b/fastval.go
@@ -84,8 +84,8 @@ const FalseString = "false"
 var TrueValueBytes = []byte(TrueString)
 var FalseValueBytes = []byte(FalseString)
 
-var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[T|t][R|r][U|u][E|e]$")
-var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[F|f][A|a][L|l][S|s][E|e]$")
+var TrueStringRegex *regexp.Regexp = regexp.MustCompile("^[Tt][Rr][Uu][Ee]$")
+var FalseStringRegex *regexp.Regexp = regexp.MustCompile("^[Ff][Aa][Ll][Ss][Ee]$")
 
 
 type FastVal struct {
-- 
2.43.0


From 2564276d9f5c15c53985a05e09008e3047d47981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 29/47] fix: keep every operand of an arithmetic chain in
 filter expressions

---
 filterExprParser.go | 100 ++++++++++++++++++++++++++++++--------------
 1 file changed, 68 insertions(+), 32 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 0ae5962..8e1dda7 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -512,9 +512,10 @@ func (f *FEFieldWithMathType0) OutputExpression() (Expression, error) {
 
 type FEFieldWithMathType1 struct {
 	Field      *FEField            `( @@`
-	MathOp     *FEMathArithmeticOp `{ @@`
+	MathOp     *FEMathArithmeticOp `[ @@`
 	MathValue  *FEMathValue        `( @@ | `
-	OtherField *FEField            `@@ ) } )`
+	OtherField *FEField            `@@ )`
+	Tail       []*FEMathTail       `{ @@ } ] )`
 }
 
 func (f *FEFieldWithMathType1) String() string {
@@ -522,53 +523,88 @@ func (f *FEFieldWithMathType1) String() string {
 	if f.Field != nil {
 		output = append(output, f.Field.String())
 	}
-	if f.MathValue != nil && (f.MathOp != nil || f.OtherField != nil) {
-		output = append(output, f.MathOp.String())
-		if f.MathOp != nil {
-			output = append(output, f.MathValue.String())
-		} else {
-			output = append(output, f.OtherField.String())
-		}
+	for _, tail := range f.operations() {
+		output = append(output, tail.String())
 	}
 	return strings.Join(output, " ")
 }
 
+// All the operations that follow the field, in written order
+func (f *FEFieldWithMathType1) operations() []*FEMathTail {
+	if f.MathOp == nil {
+		return nil
+	}
+	first := &FEMathTail{MathOp: f.MathOp, MathValue: f.MathValue, OtherField: f.OtherField}
+	return append([]*FEMathTail{first}, f.Tail...)
+}
+
 func (f *FEFieldWithMathType1) OutputExpression() (Expression, error) {
 	if f.Field == nil {
 		return nil, fmt.Errorf("Invalid FEFieldWithMathType1 %v", f.String())
 	}
 
-	if f.MathOp != nil && (f.MathValue != nil || f.OtherField != nil) {
-		var mathOutExpr FuncExpr
-		mathOpExpr, err := f.MathOp.OutputExpression()
+	// Operators group to the left, and multiplications bind tighter than additions
+	product, err := f.Field.OutputExpression()
+	if err != nil {
+		return nil, err
+	}
+	var sum Expression
+	var sumOp FuncExpr
+	for _, tail := range f.operations() {
+		mathOpExpr, err := tail.MathOp.OutputExpression()
 		if err != nil {
 			return nil, err
 		}
-		mathOutExpr = mathOpExpr.(FuncExpr)
-
-		fieldExpr, err := f.Field.OutputExpression()
+		operand, err := tail.OutputOperand()
 		if err != nil {
 			return nil, err
 		}
-		mathOutExpr.Params = append(mathOutExpr.Params, fieldExpr)
-
-		if f.MathValue != nil {
-			valueExpr, err := f.MathValue.OutputExpression()
-			if err != nil {
-				return nil, err
-			}
-			mathOutExpr.Params = append(mathOutExpr.Params, valueExpr)
-		} else {
-			field2Expr, err := f.OtherField.OutputExpression()
-			if err != nil {
-				return nil, err
-			}
-			mathOutExpr.Params = append(mathOutExpr.Params, field2Expr)
+		if tail.MathOp.Addition == nil && tail.MathOp.Subtraction == nil {
+			product = mathExpression(mathOpExpr.(FuncExpr), product, operand)
+			continue
 		}
-		return mathOutExpr, nil
+		if sum != nil {
+			product = mathExpression(sumOp, sum, product)
+		}
+		sum, sumOp, product = product, mathOpExpr.(FuncExpr), operand
+	}
+	if sum != nil {
+		product = mathExpression(sumOp, sum, product)
+	}
+	return product, nil
+}
+
+func mathExpression(op FuncExpr, lhs Expression, rhs Expression) Expression {
+	op.Params = append(op.Params, lhs, rhs)
+	return op
+}
+
+// One further operator and its right operand
+type FEMathTail struct {
+	MathOp     *FEMathArithmeticOp `@@`
+	MathValue  *FEMathValue        `( @@ |`
+	OtherField *FEField            `@@ )`
+}
+
+func (f *FEMathTail) String() string {
+	if f.MathOp == nil {
+		return "?? (FEMathTail)"
+	} else if f.MathValue != nil {
+		return fmt.Sprintf("%v %v", f.MathOp.String(), f.MathValue.String())
+	} else if f.OtherField != nil {
+		return fmt.Sprintf("%v %v", f.MathOp.String(), f.OtherField.String())
+	} else {
+		return "?? (FEMathTail)"
+	}
+}
+
+func (f *FEMathTail) OutputOperand() (Expression, error) {
+	if f.MathValue != nil {
+		return f.MathValue.OutputExpression()
+	} else if f.OtherField != nil {
+		return f.OtherField.OutputExpression()
 	} else {
-		// No math
-		return f.Field.OutputExpression()
+		return nil, fmt.Errorf("Invalid FEMathTail %v", f.String())
 	}
 }
 
-- 
2.43.0


From f7f04b020c18d79fb1802760bef16d4f89a24220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:52 +0000
Subject: [PATCH 30/47] fix: let repeated minus signs of filter expressions
 cancel out

---
 filterExprParser.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/filterExprParser.go b/filterExprParser.go
index 8e1dda7..652d163 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -609,17 +609,22 @@ func (f *FEMathTail) OutputOperand() (Expression, error) {
 }
 
 type FEField struct {
-	MathNeg *bool        `{ @"-" }`
+	MathNeg []bool       `{ @"-" }`
 	Path    []*FEOnePath `@@ { "." @@ }`
 }
 
+// Minus signs can repeat, two of them cancel out
+func isNegated(signs []bool) bool {
+	return len(signs)%2 == 1
+}
+
 func (fef *FEField) String() string {
 	output := []string{}
 	for _, onePath := range fef.Path {
 		output = append(output, onePath.String())
 	}
 	fieldOutput := strings.Join(output, ".")
-	if fef.MathNeg != nil {
+	if isNegated(fef.MathNeg) {
 		fieldOutput = fmt.Sprintf("%v%v", "-", fieldOutput)
 	}
 	return fieldOutput
@@ -639,7 +644,7 @@ func (f *FEField) OutputExpression() (Expression, error) {
 		}
 	}
 
-	if f.MathNeg != nil {
+	if isNegated(f.MathNeg) {
 		var mathOutExpr FuncExpr
 		// Only thing is a negation of the field value
 		mathOutExpr.FuncName = MathFuncNeg
@@ -798,7 +803,7 @@ func (f *FEMathArithmeticOp) OutputExpression() (Expression, error) {
 }
 
 type FEMathValue struct {
-	MathNeg    *bool    `{ @"-" }`
+	MathNeg    []bool   `{ @"-" }`
 	IntValue   *int     `( @Int |`
 	FloatValue *float64 `@Float )`
 }
@@ -806,13 +811,13 @@ type FEMathValue struct {
 func (f *FEMathValue) String() string {
 	if f.IntValue != nil {
 		outputVal := *f.IntValue
-		if f.MathNeg != nil && *f.MathNeg {
+		if isNegated(f.MathNeg) {
 			outputVal *= -1
 		}
 		return fmt.Sprintf("%v", outputVal)
 	} else if f.FloatValue != nil {
 		outputVal := *f.FloatValue
-		if f.MathNeg != nil && *f.MathNeg {
+		if isNegated(f.MathNeg) {
 			outputVal *= -1
 		}
 		return fmt.Sprintf("%v", outputVal)
@@ -824,13 +829,13 @@ func (f *FEMathValue) String() string {
 func (f *FEMathValue) OutputExpression() (Expression, error) {
 	if f.IntValue != nil {
 		outputVal := *f.IntValue
-		if f.MathNeg != nil && *f.MathNeg {
+		if isNegated(f.MathNeg) {
 			outputVal *= -1
 		}
 		return ValueExpr{outputVal}, nil
 	} else if f.FloatValue != nil {
 		outputVal := *f.FloatValue
-		if f.MathNeg != nil && *f.MathNeg {
+		if isNegated(f.MathNeg) {
 			outputVal *= -1
 		}
 		return ValueExpr{outputVal}, nil
@@ -1071,7 +1076,7 @@ func (f *FECheckOp) OutputExpression(subExpr Expression) (Expression, error) {
 // Technically we could have an slice of arguments, but having OneArg vs NoArg vs TwoArg could
 // allow us to do more strict function check (i.e. certain funcs should only allow one argument, etc, at this level)
 type FEConstFuncExpression struct {
-	MathNeg          *bool               `{ @"-" }`
+	MathNeg          []bool              `{ @"-" }`
 	ConstFuncNoArg   *FEConstFuncNoArg   `( @@ |`
 	ConstFuncOneArg  *FEConstFuncOneArg  `@@ |`
 	ConstFuncTwoArgs *FEConstFuncTwoArgs `@@ )`
@@ -1079,7 +1084,7 @@ type FEConstFuncExpression struct {
 
 func (f *FEConstFuncExpression) String() string {
 	var output []string
-	if f.MathNeg != nil && *f.MathNeg {
+	if isNegated(f.MathNeg) {
 		output = append(output, "-")
 	}
 	if f.ConstFuncNoArg != nil {
@@ -1110,7 +1115,7 @@ func (f *FEConstFuncExpression) OutputExpression() (Expression, error) {
 		return nil, err
 	}
 
-	if f.MathNeg != nil && *f.MathNeg {
+	if isNegated(f.MathNeg) {
 		var negateExpr FuncExpr
 		negateExpr.FuncName = MathFuncNeg
 		negateExpr.Params = append(negateExpr.Params, constFuncExpr)
-- 
2.43.0


From 18f1862e34c4b5c0ff0f27ed4e99e8c82cf520b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 31/47] fix: reject filter expressions whose regular expression
 does not compile

---
 filterExprParser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterExprParser.go b/filterExprParser.go
index 652d163..635ff76 100644
--- a/filterExprParser.go
+++ b/filterExprParser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/alecthomas/participle"
 	"math"
+	"regexp"
 	"strings"
 )
 
@@ -1227,6 +1228,8 @@ func (f *FEConstFuncArgumentRHS) OutputRegexExpression() (Expression, error) {
 	}
 	if tokenIsPcreValueType(f.Argument.String()) {
 		return MakePcreExpression(f.Argument.String())
+	} else if _, err := regexp.Compile(f.Argument.String()); err != nil {
+		return nil, err
 	} else {
 		return RegexExpr{f.Argument.String()}, nil
 	}
-- 
2.43.0


From ec8a562a276ea68954628cf18c426be98b67ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 32/47] fix: group mixed AND and OR of simple expressions left
 to right however they are written

---
 simpleParser.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 63bf698..acf26ad 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -534,6 +534,10 @@ func (ctx *expressionParserContext) advanceToken() error {
 		switch ctx.subCtx.opTokenContext {
 		case noFieldOp:
 			// These ops do not have fields
+			if ctx.subCtx.oneLayerMode {
+				ctx.currentTokenIndex = ctx.currentTokenIndex - 1
+				return NonErrorOneLayerDone
+			}
 			ctx.subCtx.currentMode = chainMode
 		case chainOp:
 			ctx.subCtx.currentMode = fieldMode
@@ -1147,20 +1151,14 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 
 // Enable short circuit if expression is linked by only && or only ||
 func (ctx *expressionParserContext) enableShortCircuitEvalIfPossible() {
-	var operator string
+	var foundOr, foundAnd bool
 	for i := 0; i < len(ctx.tokens); i++ {
-		if ctx.tokens[i] == TokenOperatorOr || ctx.tokens[i] == TokenOperatorAnd {
-			if len(operator) == 0 {
-				ctx.shortCircuitEnabled = true
-				operator = ctx.tokens[i]
-			} else {
-				if ctx.tokens[i] != operator {
-					ctx.shortCircuitEnabled = false
-					return
-				}
-			}
-		}
+		// Operators may be spelled out, or may not be separated from the rest of the token yet
+		token := replaceOpTokenIfNecessary(ctx.tokens[i])
+		foundOr = foundOr || strings.Contains(token, TokenOperatorOr)
+		foundAnd = foundAnd || strings.Contains(token, TokenOperatorAnd)
 	}
+	ctx.shortCircuitEnabled = foundOr != foundAnd
 }
 
 // Main high level portion of the parser
-- 
2.43.0


From 196aa8604c2b46dfca864b4ffe407aba61428e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 33/47] fix: keep constants that follow AND or OR in simple
 expressions

---
 simpleParser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/simpleParser.go b/simpleParser.go
index acf26ad..38cffc5 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1055,6 +1055,15 @@ func (ctx *expressionParserContext) insertNode(newNode ParserTreeNode) error {
 	ctx.parserTree.data = append(ctx.parserTree.data, *newBinTreeNode)
 	ctx.subCtx.lastBinTreeDataNode = ctx.parserTree.NumNodes() - 1
 
+	if ctx.subCtx.currentMode == fieldMode && newNode.tokenType.isBoolType() &&
+		ctx.subCtx.opTokenContext.isChainOp() && ctx.subCtx.lastOpIndex != -1 {
+		// A constant needs no sub context, it is all there is on the right side of the chain op
+		ctx.subCtx.currentMode = valueMode
+		if ctx.parserTree.data[ctx.subCtx.lastOpIndex].ParentIdx == -1 {
+			ctx.treeHeadIndex = ctx.subCtx.lastOpIndex
+		}
+	}
+
 	switch ctx.subCtx.currentMode {
 	case fieldMode:
 		// FieldMode - nothing to do just record this as the last field
-- 
2.43.0


From b5da4ec0f9e234959d6ac509676119de0be1b8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 34/47] fix: reject simple expressions that join nothing or
 bare fields with AND or OR

---
 simpleParser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 38cffc5..2e27504 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1126,10 +1126,10 @@ func (ctx *expressionParserContext) mergeAndRestoreSubContexts(olderSubCtx *pars
 	}
 
 	// Boundary check
-	if olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	if olderSubCtx.lastOpIndex < 0 || olderSubCtx.lastOpIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
-	if ctx.subCtx.lastOpIndex >= len(ctx.parserTree.data) {
+	if ctx.subCtx.lastOpIndex < 0 || ctx.subCtx.lastOpIndex >= len(ctx.parserTree.data) {
 		return ErrorNotFound
 	}
 
@@ -1226,6 +1226,10 @@ func (ctx *expressionParserContext) parse() error {
 		err = nil
 		if ctx.parenDepth > 0 {
 			err = ErrorParenMismatch
+		} else if ctx.subCtx.opTokenContext.isChainOp() && ctx.subCtx.lastOpIndex != -1 &&
+			ctx.parserTree.data[ctx.subCtx.lastOpIndex].Right == -1 {
+			// Nothing follows the last chain op
+			err = ErrorNotFound
 		}
 	}
 	return err
-- 
2.43.0


From 7309d7dc1c91671f2dc91b4a943dbaf4f39cb558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 35/47] fix: resolve every argument of nested functions in
 simple expressions

---
 simpleParser.go | 46 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 2e27504..365787f 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1404,7 +1404,7 @@ func (ctx *expressionParserContext) outputFunc(pos int) (Expression, error) {
 			if err != nil {
 				return out, fmt.Errorf("Error: Unable to output subFx: %v", err)
 			}
-			out.Params = append(out.Params, subFuncExpr.(FuncExpr))
+			out.Params = append(out.Params, subFuncExpr)
 		} else if fieldTokens, isField := helper.args[curLevel][i].([]string); isField {
 			var argField FieldExpr
 			argField.Path = fieldTokens
@@ -1710,13 +1710,23 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	helper.args[helper.lvlMarker] = append(helper.args[helper.lvlMarker], lastFunc)
 
 	subMatches := regex.FindStringSubmatch(token)
+	if _, ok := func2VarsTranslateTable[lastFunc]; ok && len(subMatches) > 0 {
+		var err error
+		subMatches, err = splitFuncArgs(token)
+		if err != nil {
+			return err
+		}
+	}
 
 	// Then given the arguments of the functions, populate them if there are any
 	fxIdx := helper.lvlMarker
 	for i := 1; i < len(subMatches); i++ {
 		if isFunc, key := helper.recursiveKeyFunc(subMatches[i]); isFunc {
 			nextFuncLvl := helper.makeNewFuncLevel()
-			helper.resolveRecursiveFuncs(subMatches[1], key)
+			err := helper.resolveRecursiveFuncs(subMatches[i], key)
+			if err != nil {
+				return err
+			}
 			helper.args[fxIdx] = append(helper.args[fxIdx], funcRecursiveIdx(nextFuncLvl))
 		} else if delim, ok := valueCheck(subMatches[i]).(string); ok {
 			valueString := strings.TrimPrefix(subMatches[i], delim)
@@ -1741,6 +1751,38 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 	return nil
 }
 
+// Given a call of a function of two arguments, output the call followed by each argument
+// Commas that are within a nested call or within quotes do not separate arguments
+func splitFuncArgs(token string) ([]string, error) {
+	out := []string{token}
+	var depth int
+	var quote byte
+	begin := strings.Index(token, "(") + 1
+	end := len(token) - 1
+	for pos := begin; pos < end; pos++ {
+		char := token[pos]
+		if quote != 0 {
+			if char == quote {
+				quote = 0
+			}
+		} else if char == '"' || char == '\'' || char == '`' {
+			quote = char
+		} else if char == '(' {
+			depth++
+		} else if char == ')' {
+			depth--
+		} else if char == ',' && depth == 0 {
+			out = append(out, token[begin:pos])
+			begin = pos + 1
+		}
+	}
+	out = append(out, strings.TrimLeft(token[begin:end], " "))
+	if len(out) != 3 {
+		return nil, ErrorInvalidFuncArgs
+	}
+	return out, nil
+}
+
 func (helper *funcOutputHelper) makeNewFuncLevel() int {
 	helper.lvlMarker = len(helper.args)
 	helper.args = append(helper.args, make([]interface{}, 0))
-- 
2.43.0


From 8519f87aeb95f37231efc377df2249b2804c0d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 36/47] fix: take constants joined by AND or OR in simple
 expressions as conditions

---
 simpleParser.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index 365787f..b321d4c 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -1637,17 +1637,31 @@ func (ctx *expressionParserContext) outputIsNotNull(node ParserTreeNode, pos int
 	}, nil
 }
 
+// Outputs one side of a chain op, which is a constant or the result of another op
+func (ctx *expressionParserContext) outputCondition(node ParserTreeNode, pos int) (Expression, error) {
+	switch node.tokenType {
+	case TokenTypeTrue:
+		return TrueExpr{}, nil
+	case TokenTypeFalse:
+		return FalseExpr{}, nil
+	case TokenTypeOperator:
+		return ctx.outputNode(node, pos)
+	default:
+		return emptyExpression, fmt.Errorf("Error: Chain operators need conditions on both sides - received %v", node.tokenType.String())
+	}
+}
+
 func (ctx *expressionParserContext) outputAnd(node ParserTreeNode, pos int) (Expression, error) {
 	var out AndExpr
 	leftNode, leftPos := ctx.getLeftOutputNode(pos)
 	rightNode, rightPos := ctx.getRightOutputNode(pos)
 
-	leftSubExpr, err := ctx.outputNode(leftNode, leftPos)
+	leftSubExpr, err := ctx.outputCondition(leftNode, leftPos)
 	if err != nil {
 		return out, err
 	}
 
-	rightSubExpr, err := ctx.outputNode(rightNode, rightPos)
+	rightSubExpr, err := ctx.outputCondition(rightNode, rightPos)
 	if err != nil {
 		return out, err
 	}
@@ -1663,11 +1677,11 @@ func (ctx *expressionParserContext) outputOr(node ParserTreeNode, pos int) (Expr
 	leftNode, leftPos := ctx.getLeftOutputNode(pos)
 	rightNode, rightPos := ctx.getRightOutputNode(pos)
 
-	leftSubExpr, err := ctx.outputNode(leftNode, leftPos)
+	leftSubExpr, err := ctx.outputCondition(leftNode, leftPos)
 	if err != nil {
 		return out, err
 	}
-	rightSubExpr, err := ctx.outputNode(rightNode, rightPos)
+	rightSubExpr, err := ctx.outputCondition(rightNode, rightPos)
 	if err != nil {
 		return out, err
 	}
-- 
2.43.0


From bdbf75dfcfb9de2835b2d3e599b45d1fa4622dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 37/47] fix: keep one path element per array index in front of
 a field accessor

---
 simpleParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index b321d4c..52097dc 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -947,7 +947,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					} else {
 						skipAppend = false
 					}
-					if pos == len(token)-1 || (pos < len(token)-1 && string(token[pos+1]) == fieldNestedStart) {
+					if pos == len(token)-1 || (pos < len(token)-1 && (string(token[pos+1]) == fieldNestedStart || string(token[pos+1]) == fieldSeparator)) {
 						skipAppend = true
 					}
 				case fieldSeparator:
-- 
2.43.0


From 84d792eb064a0eb0d562ab433551524816104e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:28 +0000
Subject: [PATCH 38/47] fix: split closing parentheses off a quoted value only
 behind its closing quote

---
 simpleParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index 52097dc..b321d50 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -792,7 +792,7 @@ func (ctx *expressionParserContext) getUnfinishedValueHelper(delim string) (stri
 	for ctx.currentTokenIndex++; ctx.currentTokenIndex < tokensLen; ctx.currentTokenIndex++ {
 		var breakout bool
 		token := ctx.tokens[ctx.currentTokenIndex]
-		if ctx.parenDepth > 0 && strings.HasSuffix(token, ")") {
+		if ctx.parenDepth > 0 && strings.HasSuffix(token, ")") && strings.HasSuffix(strings.TrimRight(token, ")"), delim) {
 			ctx.handleParenSuffix(")")
 			tokensLen = len(ctx.tokens)
 			token = ctx.tokens[ctx.currentTokenIndex]
-- 
2.43.0


From 13059ac6a7dae2688dbe6492d6174f39ff053d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:23 +0000
Subject: [PATCH 39/47] fix: take quoted numbers in simple expressions as text

---
 simpleParser.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/simpleParser.go b/simpleParser.go
index b321d50..c26b2cc 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -195,6 +195,9 @@ type multiwordHelperPair struct {
 	valid            bool
 }
 
+// A value that was written within quotes, which is always a string
+type quotedValue string
+
 type funcOutputHelper struct {
 	// args represent levels of potential fx recursion. The first slice is always the top level fx call
 	// The first element of []interface{} is always the func name
@@ -1190,7 +1193,11 @@ func (ctx *expressionParserContext) parse() error {
 		err = ctx.checkTokenTypeWithinContext(tokenType, token)
 		if err == nil {
 			// Push the token into the correct location into the tree
-			err = ctx.insertNode(NewParserTreeNode(tokenType, token))
+			var data interface{} = token
+			if tokenType == TokenTypeValue && !valueNumRegex.MatchString(ctx.tokens[ctx.currentTokenIndex]) {
+				data = quotedValue(token)
+			}
+			err = ctx.insertNode(NewParserTreeNode(tokenType, data))
 			if err != nil {
 				break
 			}
@@ -1338,7 +1345,9 @@ func (ctx *expressionParserContext) outputFalse() (Expression, error) {
 func outputValueInternal(data interface{}) (Expression, error) {
 	var outputData interface{} = data
 	var err error
-	if strData, ok := data.(string); ok && valueNumRegex.MatchString(strData) {
+	if quotedData, ok := data.(quotedValue); ok {
+		outputData = string(quotedData)
+	} else if strData, ok := data.(string); ok && valueNumRegex.MatchString(strData) {
 		if intNumRegex.MatchString(strData) {
 			outputData, err = strconv.ParseInt(strData, 10, 64)
 		} else {
@@ -1409,15 +1418,18 @@ func (ctx *expressionParserContext) outputFunc(pos int) (Expression, error) {
 			var argField FieldExpr
 			argField.Path = fieldTokens
 			out.Params = append(out.Params, argField)
-		} else if strArg, ok := helper.args[curLevel][i].(string); ok {
+		} else {
 			// value
-			valueExpr, err := outputValueInternal(strArg)
-			if err != nil {
-				return out, fmt.Errorf("Error: Unable to output value: %v", strArg)
+			switch arg := helper.args[curLevel][i].(type) {
+			case string, quotedValue:
+				valueExpr, err := outputValueInternal(arg)
+				if err != nil {
+					return out, fmt.Errorf("Error: Unable to output value: %v", arg)
+				}
+				out.Params = append(out.Params, valueExpr.(ValueExpr))
+			default:
+				return out, fmt.Errorf("Error: Invalid internal func: %v", arg)
 			}
-			out.Params = append(out.Params, valueExpr.(ValueExpr))
-		} else {
-			return out, fmt.Errorf("Error: Invalid internal func: %v", helper.args[curLevel][i])
 		}
 	}
 
@@ -1745,7 +1757,7 @@ func (helper *funcOutputHelper) resolveRecursiveFuncs(token string, lastFunc str
 		} else if delim, ok := valueCheck(subMatches[i]).(string); ok {
 			valueString := strings.TrimPrefix(subMatches[i], delim)
 			valueString = strings.TrimSuffix(valueString, delim)
-			helper.args[fxIdx] = append(helper.args[fxIdx], valueString)
+			helper.args[fxIdx] = append(helper.args[fxIdx], quotedValue(valueString))
 			if lastFunc == FuncDate && !validTimeChecker(valueString) {
 				return ErrorInvalidTimeFormat
 			}
-- 
2.43.0


From fc3951268a1815326aa134c8b25b2fdd4f1efc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:15 +0000
Subject: [PATCH 40/47] fix: keep document integers beyond 64 bits as numbers
 instead of wrapping them

---
 fastlitparse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fastlitparse.go b/fastlitparse.go
index 7f6ce30..10f8c04 100644
--- a/fastlitparse.go
+++ b/fastlitparse.go
@@ -14,6 +14,9 @@ type fastLitParser struct {
 	tmpBytesData [64]byte
 }
 
+// The number of bytes up to which an integer token always fits an int64
+const maxParseIntLen = 18
+
 func (p *fastLitParser) ParseInt(bytes []byte) int64 {
 	var v int64
 
@@ -72,6 +75,12 @@ func (p *fastLitParser) Parse(token tokenType, bytes []byte) FastVal {
 	case tknEscString:
 		return NewBinStringFastVal(p.ParseEscString(bytes))
 	case tknInteger:
+		if len(bytes) > maxParseIntLen {
+			if _, err := strconv.ParseInt(string(bytes), 10, 64); err != nil {
+				// Does not fit an int64
+				return NewFloatFastVal(p.ParseNumber(bytes))
+			}
+		}
 		return NewIntFastVal(p.ParseInt(bytes))
 	case tknNumber:
 		return NewFloatFastVal(p.ParseNumber(bytes))
-- 
2.43.0


From 9f7a6e8908ac3fd2c8efb081a72d59e6cdb84db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 41/47] fix: key removal: an array may end with a string

---
 jsonComposer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index d517fac..41d8755 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -130,7 +130,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 					return handleError(err)
 				}
 
-				if tknType2 == tknObjectEnd {
+				if tknType2 == tknObjectEnd || tknType2 == tknArrayEnd {
 					depth--
 					if depth < 0 {
 						return handleError(ErrInvalidJSON)
-- 
2.43.0


From adabf3d69d414c0cc68147dffa00c3afa026a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:01 +0000
Subject: [PATCH 42/47] fix: key removal: a key may be listed twice

---
 jsonComposer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonComposer.go b/jsonComposer.go
index 41d8755..7eb00c9 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -257,6 +257,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 			} else if tknType4 == tknUnknown {
 				return handleError(ErrUnrecognisedToken)
 			}
+			break
 		}
 
 		if !matched {
-- 
2.43.0


From 52bb1c442fc86c115a6c62f2dc165397eb0a7c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 43/47] fix: key removal: report a buffer that is too small
 instead of panicking

---
 jsonComposer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index 7eb00c9..0bfe419 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -41,7 +41,7 @@ func (composer *jsonObjComposer) Write(data []byte, tknType tokenType) error {
 	if tknType == tknObjectEnd && composer.prevTokenType == tknListDelim {
 		composer.pos--
 	}
-	n := copy(composer.body[composer.pos:composer.pos+len(data)], data)
+	n := copy(composer.body[composer.pos:], data)
 	if n != len(data) {
 		return ErrInsufficientMemory
 	}
-- 
2.43.0


From 359ff3b0f4e5769b752f6ed245915dfaa37d63ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:20 +0000
Subject: [PATCH 44/47] fix: key removal: match keys written with escape
 sequences

---
 jsonComposer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jsonComposer.go b/jsonComposer.go
index 0bfe419..6befbd4 100644
--- a/jsonComposer.go
+++ b/jsonComposer.go
@@ -103,7 +103,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 		tknType = tknType1
 
 		switch tknType1 {
-		case tknString:
+		case tknString, tknEscString:
 			// string token can be a JSON key or a string JSON value
 			// if the next token is ":", then potentialKey is a JSON key
 			tknType2, potentialObjDelimiter, _, err = tokenizer.Step()
@@ -166,7 +166,7 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 		case tknUnknown:
 			return handleError(ErrUnrecognisedToken)
 		default:
-			// can be tknObjectKeyDelim, tknListDelim, tknEscString, tknInteger, tknNumber,
+			// can be tknObjectKeyDelim, tknListDelim, tknInteger, tknNumber,
 			// tknNull, tknTrue, tknFalse
 			err = composer.Write(potentialKey, tknType1)
 			if err != nil {
@@ -179,6 +179,13 @@ func MatchAndRemoveItemsFromJsonObject(src []byte, remove []string, dst []byte,
 
 		// strip off the quotes from the string for matching
 		key := potentialKey[1 : tknLen-1]
+		if tknType1 == tknEscString {
+			// escape sequences stand for the characters they denote
+			unescapedKey, unescapeErr := unescapeJsonString(key, nil)
+			if unescapeErr == nil {
+				key = unescapedKey
+			}
+		}
 
 		matched := false
 		for _, keyToRemove := range remove {
-- 
2.43.0


From b8d3150f433bda4f79b08a7fc07e2b41860e9276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:16 +0000
Subject: [PATCH 45/47] fix: simple language: index 0 names the first element
 of an array

---
 simpleParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simpleParser.go b/simpleParser.go
index c26b2cc..2dac82f 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -930,7 +930,7 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 				if pos == beginPos {
 					continue
 				}
-				if pos == beginPos+1 && string(token[pos]) == "0" {
+				if pos == beginPos+1 && string(token[pos]) == "0" && (pos+1 == len(token) || string(token[pos+1]) != fieldNestedEnd) {
 					return outputToken, ErrorLeadingZeroes
 				} else if !fieldTokenInt.MatchString(string(token[pos])) && string(token[pos]) != fieldNestedEnd {
 					return outputToken, ErrorAllInts
-- 
2.43.0


From 03e3a49e5a18ba950ab25d7d123d3e6f6d5e1f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:38 +0000
Subject: [PATCH 46/47] fix: simple language: reject field words with text
 glued to a bracket or backtick instead of dropping or misplacing it

---
 constants.go    | 1 +
 simpleParser.go | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/constants.go b/constants.go
index 2dfadc4..08fd549 100644
--- a/constants.go
+++ b/constants.go
@@ -105,6 +105,7 @@ var ErrorEmptyNest error = fmt.Errorf("Array index cannot be empty")
 var ErrorMissingBacktickBracket error = fmt.Errorf("Invalid field - could not find matching ending backtick or bracket")
 var ErrorMissingQuote error = fmt.Errorf("Invalid token - could not find matching ending quote")
 var ErrorEmptyLiteral error = fmt.Errorf("Literals cannot be empty")
+var ErrorMalformedField error = fmt.Errorf("Invalid field - names and indexes must be separated")
 var ErrorEmptyToken error = fmt.Errorf("Token cannot be empty")
 var ErrorInvalidFuncArgs error = fmt.Errorf("Unable to parse arguments to specified built in function")
 var ErrorInvalidTimeFormat error = fmt.Errorf("Invalid given time format")
diff --git a/simpleParser.go b/simpleParser.go
index 2dac82f..eadbe10 100644
--- a/simpleParser.go
+++ b/simpleParser.go
@@ -892,6 +892,9 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					}
 					beginPos = pos + 1
 				case fieldLiteral:
+					if pos != beginPos {
+						return outputToken, ErrorMalformedField
+					}
 					mode = cfmBacktick
 					beginPos = pos + 1
 					nextMode = cfmNone
@@ -924,6 +927,8 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					mode = nextMode
 					if pos != len(token)-1 && (string(token[pos+1]) == fieldSeparator || string(token[pos+1]) == fieldNestedStart) || pos == len(token)-1 {
 						skipAppend = true
+					} else {
+						return outputToken, ErrorMalformedField
 					}
 				}
 			case cfmNestedNumeric:
@@ -952,6 +957,8 @@ func checkAndParseField(tokens []string, i *int, subTokens *[]string) (string, e
 					}
 					if pos == len(token)-1 || (pos < len(token)-1 && (string(token[pos+1]) == fieldNestedStart || string(token[pos+1]) == fieldSeparator)) {
 						skipAppend = true
+					} else {
+						return outputToken, ErrorMalformedField
 					}
 				case fieldSeparator:
 					fallthrough
-- 
2.43.0


From de97b8489825a68f450ba17ec282f5724af3cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:00 +0000
Subject: [PATCH 47/47] fix: SlowMatcher: any over a value that is no array or
 object is an error, not a panic

---
 slowmatcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slowmatcher.go b/slowmatcher.go
index f77d3de..470d496 100644
--- a/slowmatcher.go
+++ b/slowmatcher.go
@@ -172,7 +172,7 @@ func (m *SlowMatcher) matchAnyInExpr(expr AnyInExpr) (bool, error) {
 		return false, nil
 	}
 
-	panic("unexpected any in param type")
+	return false, errors.New("unexpected any in param type")
 }
 
 func (m *SlowMatcher) matchEqualsExpr(expr EqualsExpr) (bool, error) {
-- 
2.43.0

