From 5cacfa2c686cd11cb12a0898f539080114926f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:08 +0000
Subject: [PATCH 01/77] fix: parse strings that end in an escaped backslash

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index ee0ffb2..6cbfe32 100644
--- a/parser.go
+++ b/parser.go
@@ -144,8 +144,8 @@ readString:
 		i := strings.IndexByte(s, delimString) - 1
 		if 0 <= i && i < len(s) {
 			if s[i] == delimEscape {
-				// Advance past '\' and '"' and scan the remaining string
-				for i += 2; 0 <= i && i < len(s); i++ { // Avoid bounds check
+				// The '\' before the quote might be escaped itself, scan from the start
+				for i = 0; 0 <= i && i < len(s); i++ { // Avoid bounds check
 					switch s[i] {
 					case delimString:
 						// Slice until the closing quote
-- 
2.43.0


From 5a6105d76b008b505b21916d08f8dbdb73f27adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:10 +0000
Subject: [PATCH 02/77] fix: report a misspelled literal near the end of input
 as a syntax error

---
 parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser.go b/parser.go
index 6cbfe32..2c24695 100644
--- a/parser.go
+++ b/parser.go
@@ -178,6 +178,9 @@ readTrue:
 		}
 		return p.abort(pos, TypeBoolean, s, strTrue)
 	}
+	if s != strTrue[:len(s)] {
+		return p.abort(pos, TypeBoolean, s, strTrue)
+	}
 	return p.eof(TypeBoolean, pos)
 readFalse:
 	info |= vBoolean
@@ -188,6 +191,9 @@ readFalse:
 		}
 		return p.abort(pos, TypeBoolean, s, strFalse)
 	}
+	if s != strFalse[:len(s)] {
+		return p.abort(pos, TypeBoolean, s, strFalse)
+	}
 	return p.eof(TypeBoolean, pos)
 readNull:
 	info |= vNull
@@ -198,6 +204,9 @@ readNull:
 		}
 		return p.abort(pos, TypeNull, s, strNull)
 	}
+	if s != strNull[:len(s)] {
+		return p.abort(pos, TypeNull, s, strNull)
+	}
 	return p.eof(TypeNull, pos)
 done:
 	n := p.node()
-- 
2.43.0


From 4c246f7275855d8814dc5eb2221168b884374fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:11 +0000
Subject: [PATCH 03/77] fix: appending an invalid node leaves the array
 unchanged

Append linked the id copyOrAdopt uses for 'no node', so the array could
no longer be serialised.
---
 node.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index 2fd55ec..a6fcf2d 100644
--- a/node.go
+++ b/node.go
@@ -300,10 +300,13 @@ func (n Node) Append(values ...Node) {
 	if nn := n.get(); nn != nil && nn.info.IsArray() {
 		vv := nn.values
 		for _, v := range values {
-			vv = append(vv, V{
-				id:  n.doc.copyOrAdopt(v.Document(), v.ID(), n.id),
-				key: "",
-			})
+			id := n.doc.copyOrAdopt(v.Document(), v.ID(), n.id)
+			if id < maxUint {
+				vv = append(vv, V{
+					id:  id,
+					key: "",
+				})
+			}
 		}
 		// copyOrAdopt might grow nodes array invalidating nn pointer
 		n.doc.nodes[n.id].values = vv
-- 
2.43.0


From 05976c189a58457848a9734bcdb5382a6d79b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:11 +0000
Subject: [PATCH 04/77] fix: let Slice keep the last value of an array

Slice(i, len) was ignored.
---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index a6fcf2d..dfef4a2 100644
--- a/node.go
+++ b/node.go
@@ -317,7 +317,7 @@ func (n Node) Append(values ...Node) {
 
 // Slice reslices an Array node.
 func (n Node) Slice(i, j int) {
-	if n := n.get(); n != nil && n.info.IsArray() && 0 <= i && i < j && j < len(n.values) {
+	if n := n.get(); n != nil && n.info.IsArray() && 0 <= i && i < j && j <= len(n.values) {
 		n.values = n.values[i:j]
 	}
 }
-- 
2.43.0


From 4494bc833103d9e878468230d7f7392fee7da8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:11 +0000
Subject: [PATCH 05/77] fix: copy a value inserted into one of its own
 descendants

A free-standing node was linked into its own subtree, so that reading the
document never ended.
---
 document.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index ea8a555..a16b131 100644
--- a/document.go
+++ b/document.go
@@ -346,7 +346,7 @@ func (d *Document) copyOrAdopt(other *Document, id, to uint) uint {
 		return maxUint
 	}
 	if other == d {
-		if id != to && n.info.IsRoot() && id != 0 {
+		if id != 0 && n.info.IsRoot() && !d.contains(id, to) {
 			n.info &^= infRoot
 			return id
 		}
@@ -354,6 +354,25 @@ func (d *Document) copyOrAdopt(other *Document, id, to uint) uint {
 	return d.ncopy(other, n)
 }
 
+// contains checks if node id is or is an ancestor of another node.
+func (d *Document) contains(id, other uint) bool {
+	if id == other {
+		return true
+	}
+	if n := d.get(other); n == nil || n.info.IsRoot() {
+		// Not inside any other node
+		return false
+	}
+	if n := d.get(id); n != nil {
+		for i := range n.values {
+			if d.contains(n.values[i].id, other) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (d *Document) grow() (n *node) {
 	if len(d.nodes) < cap(d.nodes) {
 		d.nodes = d.nodes[:len(d.nodes)+1]
-- 
2.43.0


From c8f463f90f2202b7111f5bed1a23757e5072cdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:30 +0000
Subject: [PATCH 06/77] fix: do not mark copied nodes as free-standing

The copy of a root kept its root flag, so a later insertion of that copy
linked the same node in two places.
---
 document.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index a16b131..14584a8 100644
--- a/document.go
+++ b/document.go
@@ -303,8 +303,9 @@ func (d *Document) ncopy(other *Document, n *node) uint {
 	cp := d.grow()
 	values := cp.values[:cap(cp.values)]
 	*cp = node{
-		raw:  n.raw,
-		info: n.info,
+		raw: n.raw,
+		// A copy always has a parent
+		info: n.info &^ infRoot,
 	}
 	numV := uint(0)
 	for i := range n.values {
-- 
2.43.0


From 4699fcc981f8f8ffca4b007eba460ca1d98d3bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:30 +0000
Subject: [PATCH 07/77] fix: Strip removes the key everywhere below a node

Objects inside arrays and repeated keys were left alone.
---
 node.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/node.go b/node.go
index dfef4a2..980fde5 100644
--- a/node.go
+++ b/node.go
@@ -349,24 +349,22 @@ func (n Node) Remove(i int) {
 
 // Strip recursively deletes a key from a node.
 func (n Node) Strip(key string) {
-	if nn := n.get(); nn != nil && nn.info.IsObject() {
-		for i := range nn.values {
-			v := &nn.values[i]
-			if key == v.key {
-				if j := len(nn.values) - 1; 0 <= j && j < len(nn.values) {
-					nn.values[i] = nn.values[j]
-					nn.values[j] = V{}
-					nn.values = nn.values[:j]
-					for j := i; 0 <= j && j < len(nn.values); j++ {
-						n.With(nn.values[j].id).Strip(key)
-					}
-				}
-				return
-			}
-			n.With(v.id).Strip(key)
+	nn := n.get()
+	if nn == nil {
+		return
+	}
+	isObject := nn.info.IsObject()
+	for i := 0; i < len(nn.values); {
+		if isObject && key == nn.values[i].key {
+			j := len(nn.values) - 1
+			nn.values[i] = nn.values[j]
+			nn.values[j] = V{}
+			nn.values = nn.values[:j]
+			continue
 		}
+		n.With(nn.values[i].id).Strip(key)
+		i++
 	}
-
 }
 
 // Del finds a key in an Object node's values and removes it.
-- 
2.43.0


From 9f4394b0b8467124ade3e5e063db10201f5d1a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:08 +0000
Subject: [PATCH 08/77] fix: round parsed floats correctly and reject repeated
 exponent signs

The integer and fractional parts were scaled and added separately, digits
beyond 19 and big exponents overflowed, and 1e+-5 was accepted.
---
 numjson/numjson.go | 62 ++++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/numjson/numjson.go b/numjson/numjson.go
index fb3c233..91140d3 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -7,6 +7,9 @@ import (
 
 var fNaN = math.NaN()
 
+// Exponents are not accumulated past this limit. They are handled by strconv.
+const maxExp = 1 << 20
+
 // ParseFloat parses a float number from a string.
 func ParseFloat(s string) float64 {
 	var (
@@ -14,7 +17,8 @@ func ParseFloat(s string) float64 {
 		j      int
 		c      byte
 		num    uint64
-		dec    uint64
+		digits int
+		exp    int
 		f      float64
 		signed bool
 	)
@@ -55,70 +59,70 @@ func ParseFloat(s string) float64 {
 	}
 	goto fallback
 decimal:
+	digits = j
+	j = 0
 	if c == '.' {
-		j = 0
 		for i++; i < uint(len(s)); i++ {
 			c = s[i]
 			if '0' <= c && c <= '9' {
-				dec = 10*dec + uint64(c-'0')
+				num = num*10 + uint64(c-'0')
 				j++
 				continue
 			}
 			if j > 0 {
+				digits += j
 				goto scientific
 			}
 			return fNaN
 		}
-		if 0 < j && j <= 18 {
-			f = float64(num) + float64(dec)*math.Pow10(-j)
-			if signed {
-				return -f
-			}
-			return f
-		}
 		if j == 0 {
 			return fNaN
 		}
-		goto fallback
+		digits += j
+		exp = -j
+		goto done
 	}
 scientific:
 	if c == 'e' || c == 'E' {
-		signed := false
-		exp := 0
+		sign := byte('+')
 		jj := 0
 		for i++; i < uint(len(s)); i++ {
 			c = s[i]
 			if '0' <= c && c <= '9' {
 				jj++
-				exp = 10*exp + int(c-'0')
+				if exp < maxExp {
+					exp = 10*exp + int(c-'0')
+				}
 				continue
 			}
-			if jj == 0 {
-				switch c {
-				case '-':
-					signed = true
-					continue
-				case '+':
-					continue
-				}
+			if jj == 0 && (c == '-' || c == '+') && (s[i-1] == 'e' || s[i-1] == 'E') {
+				sign = c
+				continue
 			}
 			return fNaN
 		}
 		if jj == 0 {
 			return fNaN
 		}
-		if exp > 300 {
-			goto fallback
-		}
-		if signed {
-			f = (float64(num) + float64(dec)*math.Pow10(-j)) * math.Pow10(-exp)
-		} else {
-			f = float64(num)*math.Pow10(exp) + float64(dec)*math.Pow10(exp-j)
+		if sign == '-' {
+			exp = -exp
 		}
+		exp -= j
 		goto done
 	}
 	return fNaN
 done:
+	// Both factors are exact so the result is rounded only once.
+	if digits > 15 {
+		goto fallback
+	}
+	if 0 <= exp && exp <= 22 {
+		f = float64(num) * math.Pow10(exp)
+	} else if -22 <= exp && exp < 0 {
+		f = float64(num) / math.Pow10(-exp)
+	} else {
+		goto fallback
+	}
 	if signed {
 		return -f
 	}
-- 
2.43.0


From fed4823dd4735f573ce5a970127f6555d30bbd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:29 +0000
Subject: [PATCH 09/77] fix: convert integers exactly

Integers were converted through a float64, losing precision above 2^53
and refusing values next to the range limits.
---
 node.go            |  7 ++----
 numjson/numjson.go | 58 ++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/node.go b/node.go
index 980fde5..399344a 100644
--- a/node.go
+++ b/node.go
@@ -4,7 +4,6 @@ import (
 	"encoding"
 	"encoding/json"
 	"io"
-	"math"
 	"strconv"
 	"sync"
 
@@ -103,8 +102,7 @@ func (n Node) ToFloat() (float64, bool) {
 // ToInt converts a node's value to int64.
 func (n Node) ToInt() (int64, bool) {
 	if n := n.get(); n != nil {
-		f := numjson.ParseFloat(n.raw)
-		return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
+		return numjson.ParseInt(n.raw)
 	}
 	return 0, false
 }
@@ -112,8 +110,7 @@ func (n Node) ToInt() (int64, bool) {
 // ToUint converts a node's  value to uint64.
 func (n Node) ToUint() (uint64, bool) {
 	if n := n.get(); n != nil {
-		f := numjson.ParseFloat(n.raw)
-		return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
+		return numjson.ParseUint(n.raw)
 	}
 	return 0, false
 }
diff --git a/numjson/numjson.go b/numjson/numjson.go
index 91140d3..7339208 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -3,6 +3,7 @@ package numjson
 import (
 	"math"
 	"strconv"
+	"strings"
 )
 
 var fNaN = math.NaN()
@@ -135,12 +136,61 @@ fallback:
 
 // ParseInt parses an int from string
 func ParseInt(s string) (int64, bool) {
-	f := ParseFloat(s)
-	return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
+	abs, signed, ok := parseInteger(s)
+	if signed {
+		return -int64(abs), ok && abs <= -math.MinInt64
+	}
+	return int64(abs), ok && abs <= math.MaxInt64
 }
 
 // ParseUint parses an uint from string
 func ParseUint(s string) (uint64, bool) {
-	f := ParseFloat(s)
-	return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
+	abs, signed, ok := parseInteger(s)
+	return abs, ok && (!signed || abs == 0)
+}
+
+// parseInteger parses the absolute value and the sign of a number that has an integer value.
+func parseInteger(s string) (abs uint64, signed, ok bool) {
+	if f := ParseFloat(s); f != f {
+		return 0, false, false
+	}
+	if s[0] == '-' {
+		signed = true
+		s = s[1:]
+	}
+	exp := 0
+	if i := strings.IndexAny(s, "eE"); i != -1 {
+		// Out of range exponents are set to the closest limit
+		exp, _ = strconv.Atoi(s[i+1:])
+		s = s[:i]
+	}
+	dec := ""
+	if i := strings.IndexByte(s, '.'); i != -1 {
+		s, dec = s[:i], strings.TrimRight(s[i+1:], "0")
+	}
+	if dec == "" {
+		s = strings.TrimLeft(s, "0")
+		if exp < 0 {
+			n := len(s)
+			s = strings.TrimRight(s, "0")
+			exp += n - len(s)
+		}
+		if s == "" {
+			return 0, signed, true
+		}
+	}
+	if exp < len(dec) {
+		return 0, signed, false
+	}
+	s = strings.TrimLeft(s+dec, "0")
+	exp -= len(dec)
+	const maxDigits = 20
+	if len(s) > maxDigits || exp > maxDigits-len(s) {
+		return 0, signed, false
+	}
+	for ; exp > 0; exp-- {
+		s += "0"
+	}
+	abs, err := strconv.ParseUint(s, 10, 64)
+	return abs, signed, err == nil
 }
-- 
2.43.0


From a0b25f7d28a1d753f12045b5b8e667caac95f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:53 +0000
Subject: [PATCH 10/77] fix: keep the escape that follows an unpaired surrogate

The escape after an unpaired surrogate was swallowed.
---
 strjson/unescape.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/strjson/unescape.go b/strjson/unescape.go
index 5c55bbd..7bbdd7f 100644
--- a/strjson/unescape.go
+++ b/strjson/unescape.go
@@ -78,12 +78,13 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				i += 6
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
 				r2 |= rune(fromHex(ss[10]))
-				r1 = utf16.DecodeRune(r1, r2)
+				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
+					i += 6
+				}
 			} else {
 				r1 = utf8.RuneError
 			}
@@ -223,12 +224,13 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				i += 6
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
 				r2 |= rune(fromHex(ss[10]))
-				r1 = utf16.DecodeRune(r1, r2)
+				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
+					i += 6
+				}
 			} else {
 				r1 = utf8.RuneError
 			}
-- 
2.43.0


From 725d0ceb3907b3e19695e66d13da116f9adc405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:53 +0000
Subject: [PATCH 11/77] fix: keep unicode escapes with invalid hex digits as
 they are

They were decoded to arbitrary characters.
---
 strjson/unescape.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/strjson/unescape.go b/strjson/unescape.go
index 7bbdd7f..88eb3f5 100644
--- a/strjson/unescape.go
+++ b/strjson/unescape.go
@@ -65,7 +65,7 @@ unescape:
 	}
 	return j
 unescapeRune:
-	if len(ss) > 4 {
+	if len(ss) > 4 && isHex(ss[1:5]) {
 		r1 := rune(fromHex(ss[1])) << 12
 		r1 |= rune(fromHex(ss[2])) << 8
 		r1 |= rune(fromHex(ss[3])) << 4
@@ -77,7 +77,7 @@ unescapeRune:
 		}
 		i += 5
 		if utf16.IsSurrogate(r1) {
-			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
+			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' && isHex(ss[7:11]) {
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
@@ -116,6 +116,18 @@ const (
 	delimString = '"'
 )
 
+// isHex checks if all bytes of a string are hex digits.
+func isHex(s string) bool {
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case '0' <= c && c <= '9', 'a' <= c && c <= 'f', 'A' <= c && c <= 'F':
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 func writeStringAt(dst []byte, s string, pos int) int {
 	if 0 <= pos && pos < len(dst) {
 		dst = dst[pos:]
@@ -211,7 +223,7 @@ unescape:
 	}
 	return b.String()
 unescapeRune:
-	if len(ss) > 4 {
+	if len(ss) > 4 && isHex(ss[1:5]) {
 		r1 := rune(fromHex(ss[1])) << 12
 		r1 |= rune(fromHex(ss[2])) << 8
 		r1 |= rune(fromHex(ss[3])) << 4
@@ -223,7 +235,7 @@ unescapeRune:
 		}
 		i += 5
 		if utf16.IsSurrogate(r1) {
-			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
+			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' && isHex(ss[7:11]) {
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
-- 
2.43.0


From a35192dae7ac333c24ece395fbe069cee7478913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:10 +0000
Subject: [PATCH 12/77] fix: decode the keys of objects converted to maps

ToInterface returned maps with escaped keys.
---
 document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 14584a8..a826dc0 100644
--- a/document.go
+++ b/document.go
@@ -226,7 +226,7 @@ func (d *Document) toInterfaceMap(values []V) (interface{}, bool) {
 		ok bool
 	)
 	for _, v := range values {
-		m[v.key], ok = d.toInterface(v.id)
+		m[strjson.Unescaped(v.key)], ok = d.toInterface(v.id)
 		if !ok {
 			return nil, false
 		}
-- 
2.43.0


From 41136bc7cd3baf4ed90797e991c2da1157dee0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:10 +0000
Subject: [PATCH 13/77] fix: do not look up array values with an empty or
 overflowing index

An empty key returned the first value and a big index wrapped around.
---
 document.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index a826dc0..d0aa5b7 100644
--- a/document.go
+++ b/document.go
@@ -78,13 +78,13 @@ lookup:
 			case TypeArray:
 				i := 0
 				for _, c := range []byte(key) {
-					if c -= '0'; 0 <= c && c <= 9 {
+					if c -= '0'; 0 <= c && c <= 9 && i < len(n.values) {
 						i = i*10 + int(c)
 					} else {
 						return maxUint
 					}
 				}
-				if 0 <= i && i < len(n.values) {
+				if key != "" && 0 <= i && i < len(n.values) {
 					v = &n.values[i]
 					id = v.id
 					continue lookup
-- 
2.43.0


From bcb14c55038d50300dab2c58c2122bd715c93eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 14/77] fix: report errors of array and slice elements

They were dropped, leaving a partial value.
---
 unjson/decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index e87e213..a538290 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -197,7 +197,9 @@ func (dec *arrayDecoder) decode(v reflect.Value, n njson.Node) error {
 		iter := n.Values()
 		for i := 0; i < dec.size; i++ {
 			if iter.Next() {
-				dec.decoder.decode(v.Index(i), iter.Value())
+				if err := dec.decoder.decode(v.Index(i), iter.Value()); err != nil {
+					return err
+				}
 			} else {
 				for ; i < dec.size; i++ {
 					el := v.Index(i)
@@ -258,7 +260,7 @@ func (d *sliceDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 			err = d.decoder.decode(v.Index(i), iter.Value())
 			if err != nil {
 				v.SetLen(i)
-				break
+				return err
 			}
 		}
 	default:
-- 
2.43.0


From d01dd4311734a0532ddbf1272e6355d43fcc0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 15/77] fix: decode map keys to the key type of the map

Keys were stored escaped, named string types and nil maps caused a panic
and text unmarshaler keys were ignored.
---
 unjson/decode.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index a538290..e945911 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -270,9 +270,14 @@ func (d *sliceDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	return nil
 }
 
+// keyDecoder decodes map keys
+type keyDecoder interface {
+	decodeKey(v reflect.Value, key string) error
+}
+
 type mapDecoder struct {
 	typ       reflect.Type
-	keys      decoder
+	keys      keyDecoder
 	decoder   decoder
 	zeroKey   reflect.Value
 	zeroValue reflect.Value
@@ -286,7 +291,7 @@ func newMapDecoder(typ reflect.Type, options *Options, codecs cache) (*mapDecode
 		zeroKey:   reflect.Zero(key),
 		zeroValue: reflect.Zero(el),
 	}
-	if key.Implements(typTextUnmarshaler) {
+	if reflect.PtrTo(key).Implements(typTextUnmarshaler) {
 		md.keys = textDecoder{}
 	} else if key.Kind() == reflect.String {
 		md.keys = stringDecoder{}
@@ -307,6 +312,10 @@ func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	case njson.TypeNull:
 		return
 	case njson.TypeObject:
+		if v.IsNil() {
+			v.Set(reflect.MakeMap(d.typ))
+		}
+		key := reflect.New(d.typ.Key()).Elem()
 		val := reflect.New(d.typ.Elem()).Elem()
 		iter := n.Values()
 		for iter.Next() {
@@ -315,7 +324,12 @@ func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 			if err != nil {
 				return
 			}
-			v.SetMapIndex(reflect.ValueOf(iter.Key()), val)
+			key.Set(d.zeroKey)
+			err = d.keys.decodeKey(key, strjson.Unescaped(iter.Key()))
+			if err != nil {
+				return
+			}
+			v.SetMapIndex(key, val)
 		}
 		return
 	default:
@@ -371,6 +385,11 @@ func (stringDecoder) decode(v reflect.Value, n njson.Node) error {
 	}
 }
 
+func (stringDecoder) decodeKey(v reflect.Value, key string) error {
+	v.SetString(key)
+	return nil
+}
+
 type interfaceDecoder struct{}
 
 func (interfaceDecoder) Decode(x interface{}, n njson.Node) error {
@@ -485,6 +504,10 @@ func (textDecoder) decode(v reflect.Value, n njson.Node) error {
 	return n.TypeError(njson.TypeString)
 }
 
+func (textDecoder) decodeKey(v reflect.Value, key string) error {
+	return v.Addr().Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(key))
+}
+
 func (textDecoder) Decode(x interface{}, n njson.Node) error {
 	if u, ok := x.(encoding.TextUnmarshaler); ok {
 		return n.WrapUnmarshalText(u)
-- 
2.43.0


From 0790b591b228093fe77b846ecc4346a59dacc285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 16/77] fix: match struct fields by the decoded object key

A key written with escapes did not match its field.
---
 unjson/codec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 08ebc0a..7e953ca 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -4,6 +4,7 @@ import (
 	"reflect"
 
 	"github.com/alxarch/njson"
+	"github.com/alxarch/njson/strjson"
 )
 
 type structCodec struct {
@@ -204,7 +205,7 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 			iter  = n.Values()
 		)
 		for iter.Next() {
-			fc = c.Get(iter.Key())
+			fc = c.Get(strjson.Unescaped(iter.Key()))
 			if fc == nil {
 				continue
 			}
-- 
2.43.0


From 2c5616d8caaf9049742993dee705df7657c96c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:10 +0000
Subject: [PATCH 17/77] fix: decoding null clears a map

The previous entries were kept.
---
 unjson/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unjson/decode.go b/unjson/decode.go
index e945911..52d1a01 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -310,6 +310,7 @@ func newMapDecoder(typ reflect.Type, options *Options, codecs cache) (*mapDecode
 func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch n.Type() {
 	case njson.TypeNull:
+		v.Set(reflect.Zero(d.typ))
 		return
 	case njson.TypeObject:
 		if v.IsNil() {
-- 
2.43.0


From 24df482b283c44286487fac8a81afc8c9806686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:10 +0000
Subject: [PATCH 18/77] fix: report numbers that do not fit the target type

They were truncated or stored as infinity.
---
 unjson/decode.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 52d1a01..fbe60ec 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -4,6 +4,7 @@ import (
 	"encoding"
 	"encoding/json"
 	"errors"
+	"math"
 	"reflect"
 	"strconv"
 
@@ -59,6 +60,7 @@ var (
 	errValue            = errors.New("Unsupported value")
 	errInvalidType      = errors.New("Invalid type")
 	errNilNode          = errors.New("Nil JSON node")
+	errOverflow         = errors.New("Number out of range")
 )
 
 // njsonDecoder implements the Decoder interface for types implementing njson.Unmarshaler
@@ -436,13 +438,15 @@ func (uintDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, t := n.Data(); t {
 	case njson.TypeNumber:
 		n, ok := numjson.ParseUint(raw)
-		if ok {
-			v.SetUint(n)
-			return nil
+		if !ok {
+			if n, err = strconv.ParseUint(raw, 10, 64); err != nil {
+				return
+			}
 		}
-		if n, err = strconv.ParseUint(raw, 10, 64); err == nil {
-			v.SetUint(n)
+		if v.OverflowUint(n) {
+			return errOverflow
 		}
+		v.SetUint(n)
 		return
 	default:
 		return n.TypeError(njson.TypeNumber)
@@ -458,13 +462,15 @@ func (intDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, t := n.Data(); t {
 	case njson.TypeNumber:
 		n, ok := numjson.ParseInt(raw)
-		if ok {
-			v.SetInt(n)
-			return nil
+		if !ok {
+			if n, err = strconv.ParseInt(raw, 10, 64); err != nil {
+				return
+			}
 		}
-		if n, err = strconv.ParseInt(raw, 10, 64); err == nil {
-			v.SetInt(n)
+		if v.OverflowInt(n) {
+			return errOverflow
 		}
+		v.SetInt(n)
 		return
 	default:
 		return n.TypeError(njson.TypeNumber)
@@ -480,13 +486,15 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, typ := n.Data(); typ {
 	case njson.TypeNumber:
 		f := numjson.ParseFloat(raw)
-		if f == f {
-			v.SetFloat(f)
-			return nil
+		if f != f {
+			if f, err = strconv.ParseFloat(raw, 64); err != nil {
+				return
+			}
 		}
-		if f, err = strconv.ParseFloat(raw, 64); err == nil {
-			v.SetFloat(f)
+		if math.IsInf(f, 0) || v.OverflowFloat(f) {
+			return errOverflow
 		}
+		v.SetFloat(f)
 		return
 	case njson.TypeNull:
 		v.SetFloat(0)
-- 
2.43.0


From 3adcc6dbf0a86c70f0fbaf805bf31af653b595f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:37 +0000
Subject: [PATCH 19/77] fix: do not decode malformed numbers to floats

Hexadecimal and other Go number forms were accepted.
---
 unjson/decode.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index fbe60ec..439c384 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -487,9 +487,7 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	case njson.TypeNumber:
 		f := numjson.ParseFloat(raw)
 		if f != f {
-			if f, err = strconv.ParseFloat(raw, 64); err != nil {
-				return
-			}
+			return errValue
 		}
 		if math.IsInf(f, 0) || v.OverflowFloat(f) {
 			return errOverflow
-- 
2.43.0


From 214d188f706bcc1a0760f5c84c4819e354bac59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:37 +0000
Subject: [PATCH 20/77] fix: round once when decoding to float32

---
 unjson/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unjson/decode.go b/unjson/decode.go
index 439c384..a5e96c6 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -489,6 +489,10 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 		if f != f {
 			return errValue
 		}
+		if v.Kind() == reflect.Float32 {
+			// Avoid rounding twice
+			f, _ = strconv.ParseFloat(raw, 32)
+		}
 		if math.IsInf(f, 0) || v.OverflowFloat(f) {
 			return errOverflow
 		}
-- 
2.43.0


From 45ea1c52d8dd82f3dd53756ca796a35636bceb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:38 +0000
Subject: [PATCH 21/77] fix: fail to decode to a nil pointer instead of
 panicking

---
 unjson/decode.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index a5e96c6..b494802 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -37,7 +37,7 @@ type typeDecoder struct {
 }
 
 // Decode implements the Decoder interface.
-// It handles the case of a x being a nil pointer by creating a new blank value.
+// It fails if x is a nil pointer.
 func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 	if x == nil {
 		return errInvalidValueType
@@ -47,10 +47,7 @@ func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 		return errInvalidValueType
 	}
 	if v.IsNil() {
-		if n.Type() == njson.TypeNull {
-			return nil
-		}
-		v.Set(reflect.New(c.typ.Elem()))
+		return errInvalidValueType
 	}
 	return c.decode(v.Elem(), n)
 }
@@ -63,11 +60,16 @@ var (
 	errOverflow         = errors.New("Number out of range")
 )
 
+func isNilPtr(x interface{}) bool {
+	v := reflect.ValueOf(x)
+	return v.Kind() == reflect.Ptr && v.IsNil()
+}
+
 // njsonDecoder implements the Decoder interface for types implementing njson.Unmarshaler
 type njsonDecoder struct{}
 
 func (njsonDecoder) Decode(x interface{}, n njson.Node) error {
-	if x, ok := x.(njson.Unmarshaler); ok {
+	if x, ok := x.(njson.Unmarshaler); ok && !isNilPtr(x) {
 		return x.UnmarshalNodeJSON(n)
 	}
 	return errInvalidValueType
@@ -82,7 +84,7 @@ type jsonDecoder struct{}
 
 func (jsonDecoder) Decode(x interface{}, n njson.Node) (err error) {
 
-	if u, ok := x.(json.Unmarshaler); ok {
+	if u, ok := x.(json.Unmarshaler); ok && !isNilPtr(x) {
 		return n.WrapUnmarshalJSON(u)
 	}
 	return errInvalidValueType
@@ -396,7 +398,7 @@ func (stringDecoder) decodeKey(v reflect.Value, key string) error {
 type interfaceDecoder struct{}
 
 func (interfaceDecoder) Decode(x interface{}, n njson.Node) error {
-	if x, ok := x.(*interface{}); ok {
+	if x, ok := x.(*interface{}); ok && x != nil {
 		if *x, ok = n.ToInterface(); !ok {
 			return n.TypeError(njson.TypeAnyValue)
 		}
@@ -520,7 +522,7 @@ func (textDecoder) decodeKey(v reflect.Value, key string) error {
 }
 
 func (textDecoder) Decode(x interface{}, n njson.Node) error {
-	if u, ok := x.(encoding.TextUnmarshaler); ok {
+	if u, ok := x.(encoding.TextUnmarshaler); ok && !isNilPtr(x) {
 		return n.WrapUnmarshalText(u)
 	}
 	return errInvalidValueType
-- 
2.43.0


From 63385cd365ed078a4b7643f8b8ce9c79fc17f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:38 +0000
Subject: [PATCH 22/77] fix: report data after the unmarshalled JSON value

---
 unjson/decode.go | 1 +
 unjson/unjson.go | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index b494802..ba4a130 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -57,6 +57,7 @@ var (
 	errValue            = errors.New("Unsupported value")
 	errInvalidType      = errors.New("Invalid type")
 	errNilNode          = errors.New("Nil JSON node")
+	errTail             = errors.New("Invalid data after JSON value")
 	errOverflow         = errors.New("Number out of range")
 )
 
diff --git a/unjson/unjson.go b/unjson/unjson.go
index e6af236..d5d9a60 100644
--- a/unjson/unjson.go
+++ b/unjson/unjson.go
@@ -29,6 +29,7 @@ package unjson
 
 import (
 	"reflect"
+	"strings"
 
 	"github.com/alxarch/njson"
 )
@@ -71,9 +72,13 @@ func UnmarshalFromString(s string, x interface{}) (err error) {
 		return
 	}
 	p := njson.Blank()
-	n, _, err := p.Parse(s)
+	n, tail, err := p.Parse(s)
 	if err == nil {
-		err = d.Decode(x, n)
+		if strings.Trim(tail, " \t\r\n") == "" {
+			err = d.Decode(x, n)
+		} else {
+			err = errTail
+		}
 	}
 	p.Close()
 	return
-- 
2.43.0


From c005c40b22852b3374d4d4857d88c56219c2c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:38 +0000
Subject: [PATCH 23/77] fix: decode to named empty interface types

The decoder panicked for any type other than interface{}.
---
 unjson/decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index ba4a130..aa41330 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -413,8 +413,11 @@ func (interfaceDecoder) decode(v reflect.Value, n njson.Node) error {
 		return errInvalidValueType
 	}
 	if x, ok := n.ToInterface(); ok {
-		xx := v.Addr().Interface().(*interface{})
-		*xx = x
+		if x == nil {
+			v.Set(reflect.Zero(v.Type()))
+		} else {
+			v.Set(reflect.ValueOf(x))
+		}
 		return nil
 	}
 	return n.TypeError(njson.TypeAnyValue)
-- 
2.43.0


From cd6df10bf787f1a546de9d25754aaf871608ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:08 +0000
Subject: [PATCH 24/77] fix: use the unmarshaler of nested values

Unmarshalers with pointer receivers were ignored below the top level, nil
pointers were called and a struct codec cached by the encoder was used
instead of the type's own unmarshaler.
---
 unjson/cache.go  |  4 +++
 unjson/decode.go | 69 +++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 66 insertions(+), 7 deletions(-)

diff --git a/unjson/cache.go b/unjson/cache.go
index f548ea6..d0a0253 100644
--- a/unjson/cache.go
+++ b/unjson/cache.go
@@ -109,6 +109,10 @@ func (c cache) encoder(typ reflect.Type, options *Options, hints hint) (encoder,
 }
 
 func (c cache) decoder(typ reflect.Type, options *Options) (decoder, error) {
+	// The cached struct codec of a type that only marshals itself is both an encoder and a decoder
+	if dec := newCustomDecoder(typ); dec != nil {
+		return dec, nil
+	}
 	key := cacheKey{typ, 0}
 	if x := c[key]; x != nil {
 		if e, ok := x.(decoder); ok {
diff --git a/unjson/decode.go b/unjson/decode.go
index aa41330..9c73baa 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -132,13 +132,8 @@ func newDecoder(typ reflect.Type, options *Options, codecs cache) (decoder, erro
 	if typ == nil {
 		return nil, errInvalidType
 	}
-	switch {
-	case typ.Implements(typNodeUnmarshaler):
-		return njsonDecoder{}, nil
-	case typ.Implements(typJSONUnmarshaler):
-		return jsonDecoder{}, nil
-	case typ.Implements(typTextUnmarshaler):
-		return textDecoder{}, nil
+	if dec := newCustomDecoder(typ); dec != nil {
+		return dec, nil
 	}
 
 	switch typ.Kind() {
@@ -172,6 +167,66 @@ func newDecoder(typ reflect.Type, options *Options, codecs cache) (decoder, erro
 	}
 }
 
+// newCustomDecoder returns a decoder for types that unmarshal themselves.
+//
+// Pointers are handled by ptrDecoder.
+func newCustomDecoder(typ reflect.Type) decoder {
+	switch typ.Kind() {
+	case reflect.Ptr:
+		return nil
+	case reflect.Interface:
+		if dec := customDecoder(typ); dec != nil {
+			return ifaceDecoder{dec}
+		}
+		return nil
+	default:
+		if dec := customDecoder(reflect.PtrTo(typ)); dec != nil {
+			return addrDecoder{dec}
+		}
+		return nil
+	}
+}
+
+func customDecoder(typ reflect.Type) decoder {
+	switch {
+	case typ.Implements(typNodeUnmarshaler):
+		return njsonDecoder{}
+	case typ.Implements(typJSONUnmarshaler):
+		return jsonDecoder{}
+	case typ.Implements(typTextUnmarshaler):
+		return textDecoder{}
+	default:
+		return nil
+	}
+}
+
+// addrDecoder decodes to the address of a value
+type addrDecoder struct {
+	decoder
+}
+
+func (d addrDecoder) decode(v reflect.Value, n njson.Node) error {
+	return d.decoder.decode(v.Addr(), n)
+}
+
+// ifaceDecoder decodes to the value of a non-nil interface
+type ifaceDecoder struct {
+	decoder
+}
+
+func (d ifaceDecoder) decode(v reflect.Value, n njson.Node) error {
+	if v.IsNil() {
+		if n.Type() == njson.TypeNull {
+			return nil
+		}
+		return errInvalidValueType
+	}
+	if el := v.Elem(); el.Kind() == reflect.Ptr && el.IsNil() {
+		return errInvalidValueType
+	}
+	return d.decoder.decode(v, n)
+}
+
 type arrayDecoder struct {
 	// typ     reflect.Type
 	size      int
-- 
2.43.0


From e987223ff4805f24c486f1d4e357779f5d921522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 25/77] fix: encode float64 values with full precision

They were rounded to float32.
---
 unjson/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index cf89c9f..a9a05d0 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -131,7 +131,7 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	case reflect.Float32:
 		return newFloatEncoder(32, options)
 	case reflect.Float64:
-		return newFloatEncoder(32, options)
+		return newFloatEncoder(64, options)
 	case reflect.Bool:
 		return boolEncoder{}, nil
 	case reflect.String:
-- 
2.43.0


From 36e0d415117942b00f62cadae0d1eb12cd8108e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:45 +0000
Subject: [PATCH 26/77] fix: encode nil pointers as null

The encoder panicked when the value or a value inside an interface was a
nil pointer.
---
 unjson/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index a9a05d0..12a1f40 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -42,9 +42,12 @@ func (m *typeEncoder) Encode(out []byte, x interface{}) ([]byte, error) {
 	}
 	v := reflect.ValueOf(x)
 	if v.Kind() == reflect.Ptr {
+		if v.Type().Elem() == m.typ && v.IsNil() {
+			return append(out, strNull...), nil
+		}
 		v = v.Elem()
 	}
-	if v.Type() != m.typ {
+	if !v.IsValid() || v.Type() != m.typ {
 		return out, errInvalidValueType
 	}
 	return m.encode(out, v)
-- 
2.43.0


From 262af0847dc65d7bcbc15fb0011b19f82059ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:46 +0000
Subject: [PATCH 27/77] fix: use marshal methods like encoding/json

Marshal methods with pointer receivers caused a panic at the top level and
were ignored below it, nil pointers and interfaces were called, and a
struct codec cached by the decoder was used instead of the type's own
marshaler.
---
 unjson/cache.go  | 30 ++++++++++++++++++
 unjson/codec.go  |  1 +
 unjson/encode.go | 79 ++++++++++++++++++++++++++++++++++--------------
 3 files changed, 88 insertions(+), 22 deletions(-)

diff --git a/unjson/cache.go b/unjson/cache.go
index d0a0253..e925156 100644
--- a/unjson/cache.go
+++ b/unjson/cache.go
@@ -94,6 +94,33 @@ func cacheType(typ reflect.Type) bool {
 	}
 }
 func (c cache) encoder(typ reflect.Type, options *Options, hints hint) (encoder, error) {
+	if typ == nil {
+		return nil, errInvalidType
+	}
+	// Pointers are handled by ptrEncoder
+	if typ.Kind() != reflect.Ptr {
+		if enc := newCustomEncoder(reflect.PtrTo(typ)); enc != nil {
+			value := newCustomEncoder(typ)
+			if value == enc {
+				return enc, nil
+			}
+			if value == nil {
+				var err error
+				if value, err = c.kindEncoder(typ, options, hints); err != nil {
+					value = errEncoder{err}
+				}
+			}
+			return &addrEncoder{enc, value}, nil
+		}
+		if enc := newCustomEncoder(typ); enc != nil {
+			return enc, nil
+		}
+	}
+	return c.kindEncoder(typ, options, hints)
+}
+
+// kindEncoder returns an encoder for a type ignoring it's marshal methods.
+func (c cache) kindEncoder(typ reflect.Type, options *Options, hints hint) (encoder, error) {
 	key := cacheKey{typ, hints}
 	if x := c[key]; x != nil {
 		if e, ok := x.(encoder); ok {
@@ -102,6 +129,9 @@ func (c cache) encoder(typ reflect.Type, options *Options, hints hint) (encoder,
 	}
 	enc, err := newEncoder(typ, options, hints, c)
 	if err != nil {
+		// Drop incomplete encoders
+		delete(c, key)
+		delete(c, cacheKey{typ, 0})
 		return nil, err
 	}
 	c[key] = enc
diff --git a/unjson/codec.go b/unjson/codec.go
index 7e953ca..3134a37 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -174,6 +174,7 @@ func newStructCodec(typ reflect.Type, options *Options, codecs cache) (*structCo
 	}
 	codecs[cacheKey{typ, 0}] = &c
 	if err := c.merge(typ, options, nil, codecs); err != nil {
+		delete(codecs, cacheKey{typ, 0})
 		return nil, err
 	}
 	return &c, nil
diff --git a/unjson/encode.go b/unjson/encode.go
index 12a1f40..068a2ae 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -80,22 +80,12 @@ func newTypeEncoder(typ reflect.Type, options *Options) (*typeEncoder, error) {
 		m.typ = typ.Elem()
 	} else {
 		m.typ = typ
-		typ = reflect.PtrTo(typ)
 	}
-	switch {
-	case typ.Implements(typAppender):
-		m.encoder = njsonEncoder{}
-	case typ.Implements(typJSONMarshaler):
-		m.encoder = jsonEncoder{}
-	case typ.Implements(typTextMarshaler):
-		m.encoder = textEncoder{}
-	default:
-		e, err := newEncoder(m.typ, options, 0, cache{})
-		if err != nil {
-			return nil, err
-		}
-		m.encoder = e
+	e, err := cache{}.encoder(m.typ, options, 0)
+	if err != nil {
+		return nil, err
 	}
+	m.encoder = e
 	return &m, nil
 }
 
@@ -103,14 +93,6 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	if typ == nil {
 		return nil, errInvalidType
 	}
-	switch {
-	case typ.Implements(typAppender):
-		return njsonEncoder{}, nil
-	case typ.Implements(typJSONMarshaler):
-		return jsonEncoder{}, nil
-	case typ.Implements(typTextMarshaler):
-		return textEncoder{}, nil
-	}
 	switch typ.Kind() {
 	case reflect.Ptr:
 		return newPtrEncoder(typ, options, hints, codecs)
@@ -144,15 +126,65 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	}
 }
 
+// newCustomEncoder returns an encoder for types that marshal themselves.
+func newCustomEncoder(typ reflect.Type) encoder {
+	switch {
+	case typ.Implements(typAppender):
+		return njsonEncoder{}
+	case typ.Implements(typJSONMarshaler):
+		return jsonEncoder{}
+	case typ.Implements(typTextMarshaler):
+		return textEncoder{}
+	default:
+		return nil
+	}
+}
+
+// addrEncoder encodes addressable values using methods defined on their pointer.
+type addrEncoder struct {
+	addr    encoder
+	encoder encoder
+}
+
+func (e *addrEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
+	if v.CanAddr() {
+		return e.addr.encode(out, v.Addr())
+	}
+	return e.encoder.encode(out, v)
+}
+
+// errEncoder encodes values of types without an encoder.
+type errEncoder struct {
+	err error
+}
+
+func (e errEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
+	return out, e.err
+}
+
+// isNil checks if there is no value to call a marshal method on.
+func isNil(v reflect.Value) bool {
+	if v.Kind() == reflect.Interface {
+		v = v.Elem()
+	}
+	return !v.IsValid() || (v.Kind() == reflect.Ptr && v.IsNil())
+}
+
 type njsonEncoder struct{}
 
 func (njsonEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
+	if isNil(v) {
+		return append(out, strNull...), nil
+	}
 	return v.Interface().(njson.Appender).AppendJSON(out)
 }
 
 type jsonEncoder struct{}
 
 func (jsonEncoder) encode(out []byte, v reflect.Value) (b []byte, err error) {
+	if isNil(v) {
+		return append(out, strNull...), nil
+	}
 	b, err = v.Interface().(json.Marshaler).MarshalJSON()
 	if err == nil && b != nil {
 		out = append(out, b...)
@@ -210,6 +242,9 @@ func (c interfaceEncoder) encode(b []byte, v reflect.Value) ([]byte, error) {
 type textEncoder struct{}
 
 func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error) {
+	if isNil(v) {
+		return append(out, strNull...), nil
+	}
 	text, err = v.Interface().(encoding.TextMarshaler).MarshalText()
 	if err == nil {
 		out = append(out, delimString)
-- 
2.43.0


From 29f7efabacf547e7cd0bb988b53c13b662c3bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 28/77] fix: escape the output of text marshalers

---
 unjson/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index 068a2ae..426db5b 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -248,7 +248,7 @@ func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error)
 	text, err = v.Interface().(encoding.TextMarshaler).MarshalText()
 	if err == nil {
 		out = append(out, delimString)
-		out = append(out, text...)
+		out = strjson.AppendEscaped(out, string(text), false)
 		out = append(out, delimString)
 	}
 	return out, err
-- 
2.43.0


From 16e19df50c380a61101eb87f5d5d4b4392561aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 29/77] fix: pass unescaped text to text unmarshalers

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 399344a..a79d713 100644
--- a/node.go
+++ b/node.go
@@ -223,7 +223,7 @@ func (n Node) WrapUnmarshalText(u encoding.TextUnmarshaler) (err error) {
 		switch t := node.info.Type(); t {
 		case TypeString:
 			buf := bufferpool.Get().([]byte)
-			buf = append(buf[:0], node.raw...)
+			buf = strjson.AppendUnescaped(buf[:0], node.raw)
 			err = u.UnmarshalText(buf)
 			bufferpool.Put(buf)
 			return
-- 
2.43.0


From 0f7123ec1a4099e825e33c50ef3df867d0c32a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 30/77] fix: encode map keys like encoding/json

String keys are written as they are and a nil key as an empty string.
---
 unjson/encode.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index 426db5b..152ae58 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -254,6 +254,17 @@ func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error)
 	return out, err
 }
 
+type textKeyEncoder struct {
+	textEncoder
+}
+
+func (e textKeyEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
+	if isNil(v) {
+		return append(out, delimString, delimString), nil
+	}
+	return e.textEncoder.encode(out, v)
+}
+
 type mapEncoder struct {
 	typ     reflect.Type
 	encoder encoder
@@ -267,10 +278,10 @@ func newMapEncoder(typ reflect.Type, options *Options, codecs cache) (*mapEncode
 		typ: typ,
 	}
 
-	if key.Implements(typTextMarshaler) {
-		me.keys = textEncoder{}
-	} else if key.Kind() == reflect.String {
+	if key.Kind() == reflect.String {
 		me.keys = stringEncoder(false)
+	} else if key.Implements(typTextMarshaler) {
+		me.keys = textKeyEncoder{}
 	} else {
 		return nil, errInvalidType
 	}
-- 
2.43.0


From c031881618c027db38dfe6c55f113c62aac3bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:13 +0000
Subject: [PATCH 31/77] fix: apply encoder options to values inside interfaces

---
 unjson/encode.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index 152ae58..8525f56 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -106,7 +106,7 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 		return newMapEncoder(typ, options, codecs)
 	case reflect.Interface:
 		if typ.NumMethod() == 0 {
-			return interfaceEncoder{}, nil
+			return interfaceEncoder{options}, nil
 		}
 		return nil, errInvalidType
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -222,7 +222,7 @@ func (HTML stringEncoder) encode(b []byte, v reflect.Value) ([]byte, error) {
 }
 
 type interfaceEncoder struct {
-	// options *Options
+	options *Options
 }
 
 func (c interfaceEncoder) Encode(out []byte, x interface{}) ([]byte, error) {
@@ -236,7 +236,14 @@ func (c interfaceEncoder) encode(b []byte, v reflect.Value) ([]byte, error) {
 	if v.IsNil() {
 		return append(b, strNull...), nil
 	}
-	return AppendJSON(b, v.Interface())
+	if c.options == nil || *c.options == defaultOptions {
+		return AppendJSON(b, v.Interface())
+	}
+	enc, err := newTypeEncoder(reflect.TypeOf(v.Interface()), c.options)
+	if err != nil {
+		return b, err
+	}
+	return enc.Encode(b, v.Interface())
 }
 
 type textEncoder struct{}
-- 
2.43.0


From 1258fc43344664862bf82dfb7fd3df8eeaeaaf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:44 +0000
Subject: [PATCH 32/77] fix: keep the embedded pointers allocated while
 decoding

Fields decoded to a nil embedded pointer were lost.
---
 unjson/codec.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 3134a37..4048713 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -220,7 +220,10 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 				for _, i := range fc.index[1:] {
 					if i == -1 {
 						if field.IsNil() {
-							field = reflect.New(field.Type().Elem())
+							if !field.CanSet() {
+								return errInvalidValueType
+							}
+							field.Set(reflect.New(field.Type().Elem()))
 						}
 						field = field.Elem()
 					} else {
-- 
2.43.0


From c3882e35c9d0f1d2e65b4b8e8055a400b5bd47d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:44 +0000
Subject: [PATCH 33/77] fix: use one struct field for each object key

A deeper field could hide a shallower one or be written along with it,
fields of unexported embedded structs were ignored and recursive embedded
pointers never ended. Fields are now selected as in encoding/json.
---
 unjson/codec.go | 124 +++++++++++++++++++++++++++++-------------------
 1 file changed, 76 insertions(+), 48 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 4048713..20d0b27 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -87,55 +87,102 @@ func (c *structCodec) encode(b []byte, v reflect.Value) ([]byte, error) {
 	return b, nil
 }
 
-func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, codecs cache) error {
-	if typ == nil {
-		return nil
-	}
-	n := typ.NumField()
-	v := reflect.New(typ).Elem()
-	depth := len(index)
-	for i := 0; i < n; i++ {
-		// Check field is exported and settable
-		if !v.Field(i).CanSet() {
-			continue
+// structField is a candidate field of a struct
+type structField struct {
+	reflect.StructField
+	key    string
+	hints  hint
+	tagged bool  // key is defined by a tag
+	index  []int // index sequence where -1 is a pointer dereference
+	depth  int
+}
+
+// structFields collects the fields of a struct and it's embedded structs
+func structFields(fields []structField, typ reflect.Type, options *Options, index []int, parents []reflect.Type) []structField {
+	for _, t := range parents {
+		if t == typ {
+			// Fields of recursive types are hidden by the ones of the outer type
+			return fields
 		}
+	}
+	depth := len(parents)
+	parents = append(parents, typ)
+	for i := 0; i < typ.NumField(); i++ {
 		field := typ.Field(i)
-		tag, hints, tagged := options.parseField(field)
-		if tag == "-" {
+		key, hints, _ := options.parseField(field)
+		if key == "-" {
 			continue
 		}
-		index = append(index[:depth], field.Index...)
-		if !tagged && field.Anonymous {
+		name, _, _ := parseTag(field.Tag, options.tagKey())
+		index := append(copyIndex(index), i)
+		if field.Anonymous {
 			t := field.Type
-			if t.Kind() == reflect.Ptr {
-				// Flag for fieldByIndex
-				index = append(index, -1)
+			isPtr := t.Kind() == reflect.Ptr
+			if isPtr {
 				t = t.Elem()
 			}
-			if t.Kind() == reflect.Struct {
-				// embedded struct
-				if err := c.merge(t, options, index, codecs); err != nil {
-					return err
+			if field.PkgPath != "" && t.Kind() != reflect.Struct {
+				// unexported
+				continue
+			}
+			if name == "" && t.Kind() == reflect.Struct {
+				if isPtr {
+					// Flag for fieldByIndex
+					index = append(index, -1)
 				}
+				fields = structFields(fields, t, options, index, parents)
 				continue
 			}
 		}
-		// tag = string(strjson.Escape(nil, tag))
-		if ff := c.Get(tag); ff != nil && cmpIndex(ff.index, index) != -1 {
+		if field.PkgPath != "" {
+			// unexported
 			continue
 		}
+		fields = append(fields, structField{
+			StructField: field,
+			key:         key,
+			hints:       hints,
+			tagged:      name != "",
+			index:       index,
+			depth:       depth,
+		})
+	}
+	return fields
+}
 
+// isDominant checks if a field is the one used for it's key using the rules of encoding/json
+func isDominant(fields []structField, i int) bool {
+	f := &fields[i]
+	for j := range fields {
+		ff := &fields[j]
+		if j == i || ff.key != f.key || ff.depth > f.depth {
+			continue
+		}
+		if ff.depth < f.depth || ff.tagged || !f.tagged {
+			return false
+		}
+	}
+	return true
+}
+
+func (c *structCodec) merge(typ reflect.Type, options *Options, codecs cache) error {
+	fields := structFields(nil, typ, options, nil, nil)
+	for i := range fields {
+		if !isDominant(fields, i) {
+			continue
+		}
+		field := &fields[i]
 		dec, err := codecs.decoder(field.Type, options)
 		if err != nil {
 			return err
 		}
-		enc, err := codecs.encoder(field.Type, options, hints)
+		enc, err := codecs.encoder(field.Type, options, field.hints)
 		if err != nil {
 			return err
 		}
 
 		var omit omiter
-		if hints&hintOmitempty == hintOmitempty {
+		if field.hints&hintOmitempty == hintOmitempty {
 			if enc, ok := enc.(omiterer); ok {
 				omit = enc.omiter(options.OmitMethod)
 			} else {
@@ -146,8 +193,8 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 		}
 
 		c.Add(codec{
-			key:     tag,
-			index:   copyIndex(index),
+			key:     field.key,
+			index:   field.index,
 			decoder: dec,
 			encoder: enc,
 			omiter:  omit,
@@ -173,7 +220,7 @@ func newStructCodec(typ reflect.Type, options *Options, codecs cache) (*structCo
 		zeroValue: reflect.Zero(typ),
 	}
 	codecs[cacheKey{typ, 0}] = &c
-	if err := c.merge(typ, options, nil, codecs); err != nil {
+	if err := c.merge(typ, options, codecs); err != nil {
 		delete(codecs, cacheKey{typ, 0})
 		return nil, err
 	}
@@ -247,25 +294,6 @@ func copyIndex(a []int) (b []int) {
 	return
 }
 
-func cmpIndex(a, b []int) int {
-	if len(a) > len(b) {
-		return -1
-	}
-	if len(a) == len(b) {
-		// Avoid bounds check
-		b = b[:len(a)]
-		for i, j := range a {
-			if jj := b[i]; j > jj {
-				return -1
-			} else if jj > j {
-				return 1
-			}
-		}
-		return 0
-	}
-	return 1
-}
-
 type hint uint8
 
 const (
-- 
2.43.0


From 255ac59a62ec325e8627c068bfe3090f9768d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:17 +0000
Subject: [PATCH 34/77] fix: interpret field names in tags like encoding/json

A field could not be named '-' and names with quotes or control characters
resulted in invalid JSON.
---
 unjson/codec.go   |  2 +-
 unjson/options.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 20d0b27..f6a80ca 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -110,7 +110,7 @@ func structFields(fields []structField, typ reflect.Type, options *Options, inde
 	for i := 0; i < typ.NumField(); i++ {
 		field := typ.Field(i)
 		key, hints, _ := options.parseField(field)
-		if key == "-" {
+		if field.Tag.Get(options.tagKey()) == "-" {
 			continue
 		}
 		name, _, _ := parseTag(field.Tag, options.tagKey())
diff --git a/unjson/options.go b/unjson/options.go
index 1c194b2..ba10d12 100644
--- a/unjson/options.go
+++ b/unjson/options.go
@@ -3,6 +3,7 @@ package unjson
 import (
 	"reflect"
 	"strings"
+	"unicode"
 )
 
 // Options holds options for an Encoder/Decoder
@@ -88,12 +89,25 @@ func parseHints(tag string) (hints hint) {
 	return
 }
 
+// isValidName checks if a tag name can be used as an object key. It follows encoding/json.
+func isValidName(name string) bool {
+	for _, c := range name {
+		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) && !unicode.IsLetter(c) && !unicode.IsDigit(c) {
+			return false
+		}
+	}
+	return true
+}
+
 func parseTag(tag reflect.StructTag, key string) (name string, hints hint, ok bool) {
 	if name, ok = tag.Lookup(key); ok {
 		if i := strings.IndexByte(name, ','); 0 <= i && i < len(tag) {
 			hints = parseHints(name[i:])
 			name = name[:i]
 		}
+		if !isValidName(name) {
+			name = ""
+		}
 	}
 	return
 }
-- 
2.43.0


From 8fe96b7606f567ce654377ec838ffa825453a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:17 +0000
Subject: [PATCH 35/77] fix: call the omit methods of pointers and values
 safely

The method of a value was called on nil pointers and the method of a
pointer was not called for values that are not addressable.
---
 unjson/omit.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index 34f2fde..e1f58bb 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -100,12 +100,26 @@ func (o *ptrOmiter) omit(v reflect.Value) bool {
 	return v.IsNil() || o.omiter.omit(v.Elem())
 }
 
+type nilOmiter struct {
+	omiter
+}
+
+func (o *nilOmiter) omit(v reflect.Value) bool {
+	return v.IsNil() || o.omiter.omit(v)
+}
+
 type elemOmiter struct {
 	omiter
 }
 
 func (o *elemOmiter) omit(v reflect.Value) bool {
-	return v.CanAddr() && o.omiter.omit(v.Addr())
+	if !v.CanAddr() {
+		// Call the method on a copy
+		cp := reflect.New(v.Type()).Elem()
+		cp.Set(v)
+		v = cp
+	}
+	return o.omiter.omit(v.Addr())
 }
 
 // newCustomOmiter creates an omiter func for a type.
@@ -119,17 +133,21 @@ func newCustomOmiter(typ reflect.Type, methodName string) omiter {
 	if methodName == "" {
 		methodName = defaultOmitMethod
 	}
-	if om := customOmiter(typ, methodName); om != nil {
-		return om
-	}
-
 	switch typ.Kind() {
 	case reflect.Ptr:
 		// If pointer element implements omiter wrap it
 		if om := customOmiter(typ.Elem(), methodName); om != nil {
 			return &ptrOmiter{om}
 		}
+		if om := customOmiter(typ, methodName); om != nil {
+			return &nilOmiter{om}
+		}
+	case reflect.Interface:
+		return nil
 	default:
+		if om := customOmiter(typ, methodName); om != nil {
+			return om
+		}
 		// If pointer to type implements omiter wrap it
 		if om := customOmiter(reflect.PtrTo(typ), methodName); om != nil {
 			return &elemOmiter{om}
-- 
2.43.0


From 6f244b7dae9c99790c2c361721c65f8a34992185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:10 +0000
Subject: [PATCH 36/77] fix: do not omit values of interface types with methods

---
 unjson/omit.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index e1f58bb..c8e607d 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -198,10 +198,7 @@ func newOmiter(typ reflect.Type, methodName string) omiter {
 	case reflect.Array:
 		return newArrayOmiter(typ, methodName)
 	case reflect.Interface:
-		if typ.NumMethod() == 0 {
-			return omitNil{}
-		}
-		return omitAlways{}
+		return omitNil{}
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return omitInt{}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-- 
2.43.0


From 1701ece44842efd80f2372016572f076bfe516de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:10 +0000
Subject: [PATCH 37/77] fix: validate and compact the output of JSON marshalers

Invalid output was copied to the document and line breaks in it broke
newline delimited streams.
---
 unjson/encode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index 8525f56..c16d50b 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -1,6 +1,7 @@
 package unjson
 
 import (
+	"bytes"
 	"encoding"
 	"encoding/json"
 	"math"
@@ -186,8 +187,11 @@ func (jsonEncoder) encode(out []byte, v reflect.Value) (b []byte, err error) {
 		return append(out, strNull...), nil
 	}
 	b, err = v.Interface().(json.Marshaler).MarshalJSON()
-	if err == nil && b != nil {
-		out = append(out, b...)
+	if err == nil {
+		buf := bytes.NewBuffer(out)
+		if err = json.Compact(buf, b); err == nil {
+			return buf.Bytes(), nil
+		}
 	}
 	return out, err
 }
-- 
2.43.0


From fc951330acea0206b488eb2154c3a8d55e51655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:11 +0000
Subject: [PATCH 38/77] fix: report reader errors in the middle of a line

The part of the line read so far was decoded as a complete line and the
error was lost.
---
 unjson/stream.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index c0c1f79..63b8621 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -34,14 +34,15 @@ func NewLineDecoder(r io.Reader) *LineDecoder {
 func (d *LineDecoder) Decode(x interface{}) (err error) {
 	s := strings.Builder{}
 	for {
-		line, isPrefix, err := d.r.ReadLine()
-		if err != nil {
-			return err
-		}
+		line, err := d.r.ReadSlice('\n')
 		s.Write(line)
-		if isPrefix {
+		if err == bufio.ErrBufferFull {
 			continue
 		}
+		// The last line might not end with a newline
+		if err != nil && (err != io.EOF || s.Len() == 0) {
+			return err
+		}
 		n, tail, err := d.p.Parse(s.String())
 		if err != nil {
 			return err
-- 
2.43.0


From edb6b883f81aea8c7b8584176182abf36ce9c182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:11 +0000
Subject: [PATCH 39/77] fix: reuse the memory of previous lines in LineDecoder

The nodes of all lines were kept in its document.
---
 unjson/stream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unjson/stream.go b/unjson/stream.go
index 63b8621..d34ef8b 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -43,6 +43,7 @@ func (d *LineDecoder) Decode(x interface{}) (err error) {
 		if err != nil && (err != io.EOF || s.Len() == 0) {
 			return err
 		}
+		d.p.Reset()
 		n, tail, err := d.p.Parse(s.String())
 		if err != nil {
 			return err
-- 
2.43.0


From de7edc0dd52ae1187cabfc9256f45111a11e70b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:11 +0000
Subject: [PATCH 40/77] fix: do not convert numbers out of range to generic
 values

---
 document.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index d0aa5b7..b1389e3 100644
--- a/document.go
+++ b/document.go
@@ -1,6 +1,7 @@
 package njson
 
 import (
+	"math"
 	"sync"
 
 	"github.com/alxarch/njson/strjson"
@@ -214,7 +215,7 @@ func (d *Document) toInterface(id uint) (interface{}, bool) {
 		return nil, true
 	case TypeNumber:
 		f := numjson.ParseFloat(n.raw)
-		return f, f == f
+		return f, f == f && !math.IsInf(f, 0)
 	default:
 		return nil, false
 	}
-- 
2.43.0


From 1b5a2fb8b8fdf9a8d1c6bf44ec97d0051df53d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:44 +0000
Subject: [PATCH 41/77] fix: an iterator that is not at a value has no key and
 no value

Before the first Next it used to give the document root, after the last
one and after Reset the last key.
---
 node.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index a79d713..58e333b 100644
--- a/node.go
+++ b/node.go
@@ -139,7 +139,7 @@ func (n Node) Type() Type {
 // Values returns a value iterator over an Array or Object values.
 func (n Node) Values() IterV {
 	if node := n.get(); node != nil {
-		return IterV{node: n, values: node.values}
+		return IterV{V: V{id: maxUint}, node: n, values: node.values}
 	}
 	return IterV{}
 }
@@ -455,7 +455,7 @@ type IterV struct {
 // Reset resets the iterator.
 func (i *IterV) Reset() {
 	i.index = 0
-	i.id = maxUint
+	i.V = V{id: maxUint}
 }
 
 // Close closes the iterator unlinking the values slice.
@@ -475,7 +475,7 @@ func (i *IterV) Next() bool {
 		i.index++
 		return true
 	}
-	i.id = maxUint
+	i.V = V{id: maxUint}
 	// Set index to -1 so every Next() returns false until Reset() is called.
 	i.index = -1
 	return false
-- 
2.43.0


From 94c45f90c75ddac03600548c5d3775008a8bcf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:45 +0000
Subject: [PATCH 42/77] fix: iterators do not show the contents of a document
 after it is reset

The values of an iterator share storage with the document, which is
rewritten once the document is reset.
---
 node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 58e333b..29884aa 100644
--- a/node.go
+++ b/node.go
@@ -470,7 +470,7 @@ func (i *IterV) Close() {
 
 // Next increments the iteration cursor and checks if the iterarion finished.
 func (i *IterV) Next() bool {
-	if 0 <= i.index && i.index < len(i.values) {
+	if 0 <= i.index && i.index < len(i.values) && i.node.Document() != nil {
 		i.V = i.values[i.index]
 		i.index++
 		return true
@@ -483,6 +483,9 @@ func (i *IterV) Next() bool {
 
 // Len returns the length of the values.
 func (i *IterV) Len() int {
+	if i.node.Document() == nil {
+		return 0
+	}
 	return len(i.values)
 }
 
-- 
2.43.0


From 13e19425b25110bace3b71632a500c9da29c6278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:37 +0000
Subject: [PATCH 43/77] fix: encoding a pointer to a nil pointer does not call
 the omit method on it

---
 unjson/omit.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index c8e607d..3703ef4 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -97,7 +97,14 @@ type ptrOmiter struct {
 }
 
 func (o *ptrOmiter) omit(v reflect.Value) bool {
-	return v.IsNil() || o.omiter.omit(v.Elem())
+	if v.IsNil() {
+		return true
+	}
+	if v = v.Elem(); v.Kind() == reflect.Ptr && v.IsNil() {
+		// There is no value to call the method on
+		return true
+	}
+	return o.omiter.omit(v)
 }
 
 type nilOmiter struct {
-- 
2.43.0


From 5a6b9989776a02bbbafc6a8b88b5b023aacf88a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:03 +0000
Subject: [PATCH 44/77] fix: NewLineDecoder accepts readers that are not
 buffered

---
 unjson/stream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index d34ef8b..beded0f 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -22,8 +22,8 @@ func NewLineDecoder(r io.Reader) *LineDecoder {
 		return nil
 	}
 	d := LineDecoder{}
-	if r, ok := r.(*bufio.Reader); ok {
-		d.r = r
+	if br, ok := r.(*bufio.Reader); ok {
+		d.r = br
 	} else {
 		d.r = bufio.NewReader(r)
 	}
-- 
2.43.0


From dacceb79fe88d8d746d73e863ecb48fb2eadc9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:15 +0000
Subject: [PATCH 45/77] fix: only JSON white space may follow the value on a
 line

---
 unjson/stream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index beded0f..555141d 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -48,7 +48,7 @@ func (d *LineDecoder) Decode(x interface{}) (err error) {
 		if err != nil {
 			return err
 		}
-		if strings.TrimSpace(tail) != "" {
+		if strings.Trim(tail, " \t\r\n") != "" {
 			return errors.New("Invalid line delimited JSON")
 		}
 		if d.Decoder == nil {
-- 
2.43.0


From a3fed9554181899bdfd892b74a0e94ef8b594415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:18 +0000
Subject: [PATCH 46/77] fix: the AppendJSON test helper stops when the method
 is missing

---
 njsontest/t.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/njsontest/t.go b/njsontest/t.go
index 0dceb9f..2163bf3 100644
--- a/njsontest/t.go
+++ b/njsontest/t.go
@@ -49,6 +49,7 @@ func AppendJSON(x interface{}, options ...Option) func(t *testing.T) {
 		v := reflect.ValueOf(x)
 		if err := checkMethod(v, method); err != nil {
 			t.Errorf("Wrong value type: %s", err)
+			return
 		}
 		expect, err := test.json()
 		if err != nil {
-- 
2.43.0


From 4bdc9bf575d6008e45210cc00e51bd97c15ef437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:43 +0000
Subject: [PATCH 47/77] fix: the test helpers compare errors of types that are
 not comparable

---
 njsontest/option.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/njsontest/option.go b/njsontest/option.go
index ddbdc4e..70540f7 100644
--- a/njsontest/option.go
+++ b/njsontest/option.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"io/ioutil"
+	"reflect"
 	"regexp"
 	"strings"
 )
@@ -36,7 +37,7 @@ func Error(err interface{}) Option {
 	case error:
 		if e != nil {
 			check = func(err error) error {
-				if err == e {
+				if sameError(err, e) {
 					return nil
 				}
 				return err
@@ -82,6 +83,14 @@ func Error(err interface{}) Option {
 	})
 }
 
+// sameError checks if two errors are the same. Errors that cannot be compared are the same if they are deeply equal.
+func sameError(a, b error) bool {
+	if reflect.TypeOf(b).Comparable() {
+		return a == b
+	}
+	return reflect.DeepEqual(a, b)
+}
+
 func defaultJSON(x interface{}) Option {
 	return option(func(t *T) {
 		t.json = func() ([]byte, error) {
-- 
2.43.0


From b46404b873cf66e6f70ca8ac7300267bc9176b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:16 +0000
Subject: [PATCH 48/77] fix: the Unmarshal test helper fails if data follows
 the JSON input

---
 njsontest/t.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/njsontest/t.go b/njsontest/t.go
index 2163bf3..ebe3993 100644
--- a/njsontest/t.go
+++ b/njsontest/t.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"reflect"
+	"strings"
 	"testing"
 
 	"github.com/alxarch/njson"
@@ -98,6 +99,7 @@ func Unmarshal(x interface{}, options ...Option) func(t *testing.T) {
 			err  error
 			d    = njson.Blank()
 			n    njson.Node
+			tail string
 			v    = reflect.ValueOf(test.value)
 		)
 		if !v.IsValid() {
@@ -113,10 +115,14 @@ func Unmarshal(x interface{}, options ...Option) func(t *testing.T) {
 			t.Errorf("Unexpected input error: %s", err)
 			return
 		}
-		if n, _, err = d.Parse(string(data)); err != nil {
+		if n, tail, err = d.Parse(string(data)); err != nil {
 			t.Errorf("Unexpected parse error: %s", err)
 			return
 		}
+		if strings.Trim(tail, " \t\r\n") != "" {
+			t.Errorf("Unexpected data after JSON input: %s", tail)
+			return
+		}
 
 		results := v.MethodByName(method.Name).Call([]reflect.Value{
 			reflect.ValueOf(n),
-- 
2.43.0


From 1692ce7e2fd3461949126211b411a5e076798df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:43 +0000
Subject: [PATCH 49/77] fix: the Unmarshal test helper accepts values that are
 not pointers

---
 njsontest/t.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/njsontest/t.go b/njsontest/t.go
index ebe3993..4c98494 100644
--- a/njsontest/t.go
+++ b/njsontest/t.go
@@ -131,9 +131,13 @@ func Unmarshal(x interface{}, options ...Option) func(t *testing.T) {
 			t.Errorf("[%s.%s] Unmarshal error: %s", typ, method.Name, err)
 			return
 		}
-		if test.check == nil && !reflect.DeepEqual(original.Interface(), v.Elem().Interface()) {
+		actual := v
+		if actual.Kind() == reflect.Ptr {
+			actual = actual.Elem()
+		}
+		if test.check == nil && !reflect.DeepEqual(original.Interface(), actual.Interface()) {
 			t.Errorf("[%s.%s] Invalid unmarshal:\nexpect: %v\nactual: %v\ninput: %s",
-				reflect.TypeOf(v), method.Name, original, v.Elem(), data)
+				v.Type(), method.Name, original, actual, data)
 		}
 	}
 
-- 
2.43.0


From 068a28d217f94c545e1e570e19e02e3914296f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:20 +0000
Subject: [PATCH 50/77] fix: emit fields, imports and types of generated code
 in declaration order instead of map order

---
 internal/generator/append.go    | 10 +----
 internal/generator/generator.go | 45 +++++++++++++++++++--
 internal/generator/unmarshal.go | 72 ++++++++++++++++-----------------
 3 files changed, 78 insertions(+), 49 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 11f41f8..800eb15 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -3,7 +3,6 @@ package generator
 import (
 	"fmt"
 	"go/types"
-	"sort"
 	"strings"
 
 	"github.com/alxarch/meta"
@@ -120,15 +119,8 @@ func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.
 // StructAppender returns the AppendJSON block code for a struct
 func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 	c = c.Println(`more := 0`)
-	sortedFields := []meta.Field{}
-	for name := range fields {
-		sortedFields = append(sortedFields, fields[name]...)
-	}
-	sort.SliceStable(sortedFields, func(i, j int) bool {
-		return sortedFields[i].Tag < sortedFields[j].Tag
-	})
 	used := make(map[string]bool)
-	for _, field := range sortedFields {
+	for _, field := range sortedFields(fields) {
 		field = field.WithTag(g.TagKey())
 		name, tag, ok := g.parseField(field.Var, field.Tag)
 		if !ok {
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 1dc7c54..6b0becf 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -19,6 +19,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"time"
 
@@ -46,13 +47,45 @@ func (e typeError) Error() string {
 
 // AllStructs returns all structs from the package.
 func (g *Generator) AllStructs() (all []string) {
-	types := g.Package.DefinedTypes(meta.IsStruct)
-	for _, typ := range types {
+	typs := g.Package.DefinedTypes(meta.IsStruct)
+	// The package keeps it's files in random order
+	sort.SliceStable(typs, func(i, j int) bool {
+		return typePos(typs[i]) < typePos(typs[j])
+	})
+	for _, typ := range typs {
 		all = append(all, g.TypeString(typ))
 	}
 	return
 }
 
+// typePos returns the position of a type's definition.
+func typePos(typ types.Type) token.Pos {
+	if typ, ok := typ.(*types.Named); ok {
+		return typ.Obj().Pos()
+	}
+	return token.NoPos
+}
+
+// sortedFields returns all fields in the order they are declared in.
+func sortedFields(fields meta.Fields) (sorted []meta.Field) {
+	for name := range fields {
+		sorted = append(sorted, fields[name]...)
+	}
+	sort.Slice(sorted, func(i, j int) bool {
+		a, b := sorted[i].Path, sorted[j].Path
+		for i := range a {
+			if i == len(b) {
+				return false
+			}
+			if a[i].Index != b[i].Index {
+				return a[i].Index < b[i].Index
+			}
+		}
+		return len(a) < len(b)
+	})
+	return
+}
+
 // NewFromFile creates a new Generator for a package named targetPkg and parses the specified file.
 func NewFromFile(filename string, src interface{}, options ...Option) (*Generator, error) {
 	p := meta.NewParser(parser.ParseComments | parser.DeclarationErrors)
@@ -210,7 +243,13 @@ func (g *Generator) Header() string {
 	h = append(h, fmt.Sprintf(headerComment, ts))
 	h = append(h, fmt.Sprintf("package %s", g.Name()))
 
-	for path, pkg := range g.imports {
+	paths := make([]string, 0, len(g.imports))
+	for path := range g.imports {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+	for _, path := range paths {
+		pkg := g.imports[path]
 		if filepath.Base(path) == pkg.Name() {
 			h = append(h, fmt.Sprintf("import %q", path))
 		} else {
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index dd5a68e..d60ca6d 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -303,43 +303,41 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 	fields := meta.NewFields(t, true)
 	tagKey := g.TagKey()
 	used := make(map[string]bool)
-	for name := range fields {
-		for _, field := range fields[name] {
-			field = field.WithTag(tagKey)
-			if field.Name() == "_" {
-				continue
-			}
-			if !CanUnmarshal(field.Type()) {
-				continue
-			}
-			name, tag, ok := g.parseField(field.Var, field.Tag)
-			if !ok {
-				continue
-			}
-			if tag.Name != "" {
-				name = tag.Name
-			}
-			if used[name] {
-				continue
-			}
-			used[name] = true
-			var cf meta.Code
-			if tag.Params.Has("raw") && meta.IsString(field.Type()) {
-				cf = g.RawStringUnmarshaler(field.Type())
-			} else {
-				cf = g.TypeUnmarshaler(field.Type())
-			}
-			code = g.Code(`%s
-				case %s:
-					n := n.With(values.ID())
-					%s{
-						r := &r%s
-						%s
-					}
-					`, code, fmt.Sprintf("`%s`", name), g.EnsurePath(field.Path), field.Path, cf)
-			if code.Err() != nil {
-				return
-			}
+	for _, field := range sortedFields(fields) {
+		field = field.WithTag(tagKey)
+		if field.Name() == "_" {
+			continue
+		}
+		if !CanUnmarshal(field.Type()) {
+			continue
+		}
+		name, tag, ok := g.parseField(field.Var, field.Tag)
+		if !ok {
+			continue
+		}
+		if tag.Name != "" {
+			name = tag.Name
+		}
+		if used[name] {
+			continue
+		}
+		used[name] = true
+		var cf meta.Code
+		if tag.Params.Has("raw") && meta.IsString(field.Type()) {
+			cf = g.RawStringUnmarshaler(field.Type())
+		} else {
+			cf = g.TypeUnmarshaler(field.Type())
+		}
+		code = g.Code(`%s
+			case %s:
+				n := n.With(values.ID())
+				%s{
+					r := &r%s
+					%s
+				}
+				`, code, fmt.Sprintf("`%s`", name), g.EnsurePath(field.Path), field.Path, cf)
+		if code.Err() != nil {
+			return
 		}
 	}
 	return g.Code(`
-- 
2.43.0


From a21b4b52650bffaa32be2f2e07ec56c4bb8329c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:34 +0000
Subject: [PATCH 51/77] fix: generated AppendJSON dropped nil pointer fields
 instead of writing null

---
 internal/generator/append.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 800eb15..c7a550e 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -95,8 +95,9 @@ func (g *Generator) TypeOmiter(typ types.Type, block meta.Code) meta.Code {
 
 // EnsureReversePath returns a code block to check the path to an embedded field does not contain any nil pointers
 func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.Code {
+	// Fields of nil embedded structs are omitted, fields that are nil themselves are not
 	cond := []string{}
-	for i, p := range path {
+	for i, p := range path[:len(path)-1] {
 		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
 			cond = append(cond, fmt.Sprintf("v%s != nil", path[:i+1]))
 		}
-- 
2.43.0


From 20d6c87bf475291f7fff0f02043bdb793503cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 52/77] fix: generated AppendJSON did not dereference pointers
 and called methods of nil pointers

---
 internal/generator/append.go | 44 ++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index c7a550e..1d76f64 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -36,7 +36,7 @@ func (g *Generator) Appender(typName string) (c meta.Code) {
 			}
 			return out, nil
 		}
-	`, receiverName, typ, method, g.TypeAppender(typ, nil))
+	`, receiverName, typ, method, g.PointerAppender(typ, nil))
 
 }
 
@@ -157,17 +157,51 @@ func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 	return
 }
 
+// PointerAppender returns the AppendJSON block code for a non nil pointer to a type
+func (g *Generator) PointerAppender(elem types.Type, params meta.Params) (c meta.Code) {
+	if _, ok := elem.Underlying().(*types.Struct); ok {
+		// No need to copy structs to access fields and methods
+		return g.TypeAppender(elem, params)
+	}
+	return g.Code(`
+		v := *v
+		%s
+	`, g.TypeAppender(elem, params))
+}
+
 // TypeAppender returnds the AppendJSON block code for a type
 func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Code) {
+	_, isInterface := typ.Underlying().(*types.Interface)
+	methods := func(iface *types.Interface) bool {
+		if isInterface {
+			return types.Implements(typ, iface)
+		}
+		if _, ok := typ.Underlying().(*types.Pointer); ok {
+			// Check for nil first
+			return false
+		}
+		return types.Implements(types.NewPointer(typ), iface)
+	}
+	if isInterface {
+		defer func() {
+			c = g.Code(`
+			if v == nil {
+				out = append(out, "null"...)
+			} else {
+				%s
+			}
+			`, c)
+		}()
+	}
 	switch {
-	case types.Implements(typ, typJSONAppender):
+	case methods(typJSONAppender):
 		return g.Code(`
 		var err error
 		if out, err = v.AppendJSON(out); err != nil {
 			return out, err
 		}
 		`)
-	case types.Implements(typ, typJSONMarshaler):
+	case methods(typJSONMarshaler):
 		return g.Code(`
 		data, err := v.MarshalJSON()
 		if err != nil {
@@ -175,7 +209,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 		}
 		out = append(out, data...)
 		`)
-	case types.Implements(typ, typTextMarshaler):
+	case methods(typTextMarshaler):
 		return g.Code(`
 		data, err := v.MarshalText()
 		if err != nil {
@@ -195,7 +229,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			} else {
 				%s
 			}
-		`, g.TypeAppender(t.Elem(), params))
+		`, g.PointerAppender(t.Elem(), params))
 	case *types.Map:
 		return g.Code(`
 			{
-- 
2.43.0


From e141a66a1f62018b2b4f1fe3a33faeffb02ad475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:23 +0000
Subject: [PATCH 53/77] fix: generated AppendJSON did not escape the output of
 MarshalText

---
 internal/generator/append.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 1d76f64..085487e 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -216,9 +216,9 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			return out, err
 		}
 		out = append(out, '"')
-		out = append(out, data...)
+		out = strjson.AppendEscaped(out, string(data), false)
 		out = append(out, '"')
-		`)
+		`).Import(strjsonPkg)
 
 	}
 	switch t := typ.Underlying().(type) {
-- 
2.43.0


From 25a3d6cc825a84cbcc5ba7bb896f4e412c661ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:24 +0000
Subject: [PATCH 54/77] fix: generated code did not quote field names

---
 internal/generator/append.go    | 8 ++++----
 internal/generator/unmarshal.go | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 085487e..12ec1b4 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -3,9 +3,11 @@ package generator
 import (
 	"fmt"
 	"go/types"
+	"strconv"
 	"strings"
 
 	"github.com/alxarch/meta"
+	"github.com/alxarch/njson/strjson"
 )
 
 // WriteAppender writes an AppendJSON method for a type
@@ -139,12 +141,10 @@ func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 		cf = g.Code(`
 				out = append(out, "{,"[more])
 				more = 1
-				out = append(out, '"')
-				out = append(out, "%s"...)
-				out = append(out, '"', ':')
+				out = append(out, %s...)
 				{
 					%s
-				}`, name, cf)
+				}`, strconv.Quote(string(strjson.AppendEscaped([]byte{'"'}, name, false))+`":`), cf)
 		if tag.Params.Has(paramOmitempty) {
 			cf = g.TypeOmiter(field.Type(), cf)
 		}
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index d60ca6d..6d8c11c 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -1,8 +1,8 @@
 package generator
 
 import (
-	"fmt"
 	"go/types"
+	"strconv"
 	"strings"
 
 	"github.com/alxarch/meta"
@@ -335,7 +335,7 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 					r := &r%s
 					%s
 				}
-				`, code, fmt.Sprintf("`%s`", name), g.EnsurePath(field.Path), field.Path, cf)
+				`, code, strconv.Quote(name), g.EnsurePath(field.Path), field.Path, cf)
 		if code.Err() != nil {
 			return
 		}
-- 
2.43.0


From 228a4050712938a8ed457ee9673f8c1adafb4b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 55/77] fix: generated AppendJSON quoted map keys twice and
 wrote nil maps as {}

---
 internal/generator/append.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 12ec1b4..3e881b3 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -157,6 +157,28 @@ func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 	return
 }
 
+// MapKeyAppender returns the AppendJSON block code for a map key
+func (g *Generator) MapKeyAppender(typ types.Type) (c meta.Code) {
+	switch {
+	case meta.IsString(typ):
+		return c.Println(`
+			out = append(out, '"')
+			out = strjson.AppendEscaped(out, string(v), false)
+			out = append(out, '"')`).Import(strjsonPkg)
+	case types.Implements(typ, typTextMarshaler):
+		return c.Println(`
+			data, err := v.MarshalText()
+			if err != nil {
+				return out, err
+			}
+			out = append(out, '"')
+			out = strjson.AppendEscaped(out, string(data), false)
+			out = append(out, '"')`).Import(strjsonPkg)
+	default:
+		return c.Errorf("Invalid map key type %s", typ)
+	}
+}
+
 // PointerAppender returns the AppendJSON block code for a non nil pointer to a type
 func (g *Generator) PointerAppender(elem types.Type, params meta.Params) (c meta.Code) {
 	if _, ok := elem.Underlying().(*types.Struct); ok {
@@ -231,23 +253,27 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			}
 		`, g.PointerAppender(t.Elem(), params))
 	case *types.Map:
+		key := g.MapKeyAppender(t.Key())
 		return g.Code(`
-			{
+			if v == nil {
+				out = append(out, "null"...)
+			} else {
 				more := 0
 				for k, v := range v {
 					out = append(out, "{,"[more])
 					more = 1
-					out = append(out, '"')
 					{
 						v := k
 						%s
 					}
-					out = append(out, '"', ':')
-					%s
+					out = append(out, ':')
+					{
+						%s
+					}
 				}
 				out = append(out, "{}"[more:]...)
 			}
-		`, g.TypeAppender(t.Key(), nil), g.TypeAppender(t.Elem(), params))
+		`, key, g.TypeAppender(t.Elem(), params))
 	case *types.Slice:
 		return g.Code(`
 			out = append(out, '[')
-- 
2.43.0


From cf130f33cdc96a0e1983bb91d754e91482b98c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 56/77] fix: generated AppendJSON did not compile for
 interfaces and named strings

---
 internal/generator/append.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 3e881b3..fafa9bf 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -301,7 +301,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			}
 			return c.Println(`
 				out = append(out, '"')
-				out = strjson.AppendEscaped(out, v, false)
+				out = strjson.AppendEscaped(out, string(v), false)
 				out = append(out, '"')`).Import(strjsonPkg)
 		default:
 			if info := t.Info(); info&types.IsFloat != 0 {
@@ -318,7 +318,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			return c.Println(`
 				// Fallback to json.Marshal for empty interface
 				if data, err := json.Marshal(v); err == nil {
-					out = append(out, data)
+					out = append(out, data...)
 				} else {
 					return out, err
 				}`).Import(jsonPkg)
-- 
2.43.0


From d738a1021a172daec9c06bacdfede4af27389bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:26 +0000
Subject: [PATCH 57/77] fix: generated AppendJSON wrote NaN and infinite
 numbers and float32 values with float64 digits

---
 internal/generator/append.go    | 11 ++++++++++-
 internal/generator/generator.go |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index fafa9bf..0009b9e 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -305,7 +305,16 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 				out = append(out, '"')`).Import(strjsonPkg)
 		default:
 			if info := t.Info(); info&types.IsFloat != 0 {
-				return c.Println(`out = numjson.AppendFloat(out, float64(v), 64)`).Import(numjsonPkg)
+				bits := 64
+				if t.Kind() == types.Float32 {
+					bits = 32
+				}
+				return g.Code(`
+				if f := float64(v); f - f == 0 {
+					out = numjson.AppendFloat(out, f, %d)
+				} else {
+					return out, errors.New("Unsupported value")
+				}`, bits).Import(numjsonPkg, errorsPkg)
 			} else if info&types.IsUnsigned != 0 {
 				return c.Println(`out = strconv.AppendUint(out, uint64(v), 10)`).Import(strconvPkg)
 			} else if info&types.IsInteger != 0 {
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 6b0becf..a36b5f5 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -224,6 +224,7 @@ var (
 	typTextMarshaler   = encodingPkg.Scope().Lookup("TextMarshaler").Type().Underlying().(*types.Interface)
 
 	strconvPkg = meta.MustImport("strconv")
+	errorsPkg  = meta.MustImport("errors")
 )
 
 const (
-- 
2.43.0


From 6b249b0a8d16a9fa8e36267be054e3128a9bb992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 58/77] fix: generated AppendJSON called Omit on nil pointers
 and not on addressable values

---
 internal/generator/append.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 0009b9e..cccfda9 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -53,12 +53,16 @@ func (g *Generator) OmiterType() (string, *types.Interface) {
 // TypeOmiter returns the code block to check if a value should be omitted
 func (g *Generator) TypeOmiter(typ types.Type, block meta.Code) meta.Code {
 	cond := ""
-	if method, omiter := g.OmiterType(); types.Implements(typ, omiter) {
+	method, omiter := g.OmiterType()
+	if _, ok := typ.Underlying().(*types.Pointer); ok {
+		cond = `v != nil`
+		if types.Implements(typ, omiter) {
+			cond += ` && !v.` + method + `()`
+		}
+	} else if types.Implements(typ, omiter) || types.Implements(types.NewPointer(typ), omiter) {
 		cond = `!v.` + method + `()`
 	} else {
 		switch t := typ.Underlying().(type) {
-		case *types.Pointer:
-			cond = `v != nil`
 		case *types.Map:
 			cond = `len(v) > 0`
 		case *types.Slice:
-- 
2.43.0


From 622b73058cc6d5aa25a71cab37d61e57d4ee1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 59/77] fix: generated methods of types with names that do not
 start with an ASCII letter did not compile

---
 internal/generator/append.go    | 13 ++++++++++++-
 internal/generator/unmarshal.go |  3 +--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index cccfda9..2b4c806 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -5,6 +5,7 @@ import (
 	"go/types"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/alxarch/meta"
 	"github.com/alxarch/njson/strjson"
@@ -21,13 +22,23 @@ func (g *Generator) WriteAppender(typName string) (err error) {
 	return
 }
 
+// receiverName returns the receiver name of methods for a type
+func receiverName(typName string) string {
+	for _, r := range typName {
+		if unicode.IsLetter(r) {
+			return string(unicode.ToLower(r))
+		}
+	}
+	return "x"
+}
+
 // Appender returns the AppendJSON method code for a type
 func (g *Generator) Appender(typName string) (c meta.Code) {
 	typ := g.LookupType(typName)
 	if typ == nil {
 		return c.Errorf("Type %s not found", typName)
 	}
-	receiverName := strings.ToLower(typName[:1])
+	receiverName := receiverName(typName)
 	method := g.AppendMethod()
 	return g.Code(`
 		func (%[1]s *%[2]s) %[3]s(out []byte) ([]byte, error) {
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 6d8c11c..75a8fe7 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -3,7 +3,6 @@ package generator
 import (
 	"go/types"
 	"strconv"
-	"strings"
 
 	"github.com/alxarch/meta"
 )
@@ -14,7 +13,7 @@ func (g *Generator) Unmarshaler(typeName string) (code meta.Code) {
 	if typ == nil {
 		return code.Errorf("Type %s not found", typeName)
 	}
-	receiverName := strings.ToLower(typeName[:1])
+	receiverName := receiverName(typeName)
 	return g.Code(`
 		func (%[1]s *%[2]s) %[3]s(node njson.Node) error {
 			typ := node.Type()
-- 
2.43.0


From cbdc220b05ef32c7c1f05ade1b00be3aa5a7e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:10 +0000
Subject: [PATCH 60/77] fix: generated UnmarshalNodeJSON decoded slices to more
 elements than the array has

---
 internal/generator/unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 75a8fe7..7321561 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -112,8 +112,8 @@ case njson.TypeArray:
 	values := n.Values()
 	size := values.Len()
 	
-	if cap(*r) < size {
-		*r = make([]%s, len(*r) + size)
+	if *r == nil || cap(*r) < size {
+		*r = make([]%s, size)
 	} else {
 		*r = (*r)[:size]
 	}
-- 
2.43.0


From a1568e436f732dfea93e1ecae636ad80d8664911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:10 +0000
Subject: [PATCH 61/77] fix: generated UnmarshalNodeJSON did not compile for
 interfaces and durations

---
 internal/generator/unmarshal.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 7321561..3a606fb 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -151,7 +151,7 @@ default:
 
 // InterfaceUnmarshaler generates the code block to unmarshal an empty interface.
 func (g *Generator) InterfaceUnmarshaler(t types.Type, b *types.Interface) (code meta.Code) {
-	return code.Import(njsonPkg).Println(`if x, ok := n.ToInterface(); ok { *r = x } else { return n.TypeError(njson.AnyValue) }`)
+	return code.Import(njsonPkg).Println(`if x, ok := n.ToInterface(); ok { *r = x } else { return n.TypeError(njson.TypeAnyValue) }`)
 }
 
 // BasicUnmarshaler generates the code block to unmarshal a basic type.
@@ -225,22 +225,24 @@ func (g *Generator) TimeUnmarshaler(t types.Type) (code meta.Code) {
 func (g *Generator) DurationUnmarshaler(t types.Type) (code meta.Code) {
 	return g.Code(`
 	switch n.Type() {
-	case njson.Number:
-		if f, ok := n.ToNumber(); ok {
-			*r = time.Duration(f)
+	case njson.TypeNumber:
+		if i, ok := n.ToInt(); ok {
+			*r = time.Duration(i)
 		} else {
-			return errors.New("Invalid JSON number")
+			return n.TypeError(njson.TypeNumber)
 		}
-	case njson.String:
-		if t, err := time.ParseDuration(n.Raw()); err != nil {
+	case njson.TypeString:
+		if t, err := time.ParseDuration(n.Unescaped()); err != nil {
 			return err
 		} else {
 			*r = t
 		}
+	case njson.TypeNull:
+		*r = 0
 	default:
-		return n.TypeError(njson.TypeNumber|njson.TypeString)
+		return n.TypeError(njson.TypeNumber|njson.TypeString|njson.TypeNull)
 	}
-	`).Import(types.NewPackage("time", "time"))
+	`).Import(njsonPkg, types.NewPackage("time", "time"))
 }
 
 // TextUnmarshaler generates code to wrap the UnmarshalText method of a value.
-- 
2.43.0


From 477ff88ce84f7cb6e54fe454e73ebe396a341f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 62/77] fix: generated UnmarshalNodeJSON rejected null and
 escaped strings for times

---
 internal/generator/unmarshal.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 3a606fb..9b23f37 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -213,12 +213,19 @@ func (g *Generator) JSONUnmarshaler(t types.Type) (code meta.Code) {
 // TimeUnmarshaler generates code to unmarshal time.Time values.
 func (g *Generator) TimeUnmarshaler(t types.Type) (code meta.Code) {
 	return g.Code(`
-	if t, err := time.Parse(time.RFC3339, n.Raw()); err != nil {
-		return err
-	} else {
-		*r = t
+	switch n.Type() {
+	case njson.TypeString:
+		if t, err := time.Parse(time.RFC3339, n.Unescaped()); err != nil {
+			return err
+		} else {
+			*r = t
+		}
+	case njson.TypeNull:
+		// Leave the value as it is like UnmarshalJSON does
+	default:
+		return n.TypeError(njson.TypeString|njson.TypeNull)
 	}
-	`).Import(types.NewPackage("time", "time"))
+	`).Import(njsonPkg, types.NewPackage("time", "time"))
 }
 
 // DurationUnmarshaler generates code to unmarshal time.Time values.
-- 
2.43.0


From ca5f8b73a9b4d8c65b63583975f9aa9646b3d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:12 +0000
Subject: [PATCH 63/77] fix: generated UnmarshalNodeJSON truncated numbers out
 of range, took numbers from strings, strings from any value and rejected null

---
 internal/generator/unmarshal.go | 34 +++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 9b23f37..364ed9e 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -156,22 +156,40 @@ func (g *Generator) InterfaceUnmarshaler(t types.Type, b *types.Interface) (code
 
 // BasicUnmarshaler generates the code block to unmarshal a basic type.
 func (g *Generator) BasicUnmarshaler(t types.Type, b *types.Basic) (code meta.Code) {
-	var c string
+	var c, zero, typ string
 	switch b.Kind() {
 	case types.Bool:
-		c = "if b, ok := n.ToBool(); ok { *r = %s(b) } else { return n.TypeError(njson.TypeBoolean) }"
+		zero, typ = "false", "Boolean"
+		c = "if b, ok := n.ToBool(); ok { *r = %[1]s(b) } else { return n.TypeError(njson.TypeBoolean) }"
 	case types.String:
-		return g.Code("*r = %s(n.Unescaped())", t)
+		zero, typ = `""`, "String"
+		c = "*r = %[1]s(n.Unescaped())"
 	case types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
-		c = "if i, ok := n.ToInt(); ok { *r = %s(i) } else { return n.TypeError(njson.TypeNumber) }"
+		zero, typ = "0", "Number"
+		c = "if i, ok := n.ToInt(); ok && int64(%[1]s(i)) == i { *r = %[1]s(i) } else { return n.TypeError(njson.TypeNumber) }"
 	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
-		c = ("if u, ok := n.ToUint(); ok { *r = %s(u) } else { return n.TypeError(njson.TypeNumber) }")
-	case types.Float32, types.Float64:
-		c = "if f, ok := n.ToFloat(); ok { *r = %s(f) } else { return n.TypeError(njson.TypeNumber) }"
+		zero, typ = "0", "Number"
+		c = "if u, ok := n.ToUint(); ok && uint64(%[1]s(u)) == u { *r = %[1]s(u) } else { return n.TypeError(njson.TypeNumber) }"
+	case types.Float32:
+		zero, typ = "0", "Number"
+		c = "if f, err := strconv.ParseFloat(n.Raw(), 32); err == nil { *r = %[1]s(f) } else { return n.TypeError(njson.TypeNumber) }"
+		code = code.Import(strconvPkg)
+	case types.Float64:
+		zero, typ = "0", "Number"
+		c = "if f, ok := n.ToFloat(); ok && f - f == 0 { *r = %[1]s(f) } else { return n.TypeError(njson.TypeNumber) }"
 	default:
 		return code.Error(typeError{t})
 	}
-	return g.Code(c, t).Import(njsonPkg)
+	return code.Append(g.Code(`
+switch n.Type() {
+case njson.Type%[2]s:
+	`+c+`
+case njson.TypeNull:
+	*r = %[3]s
+default:
+	return n.TypeError(njson.Type%[2]s|njson.TypeNull)
+}
+`, t, typ, zero)).Import(njsonPkg)
 }
 
 // EnsurePath generates a code block to ensure the path to an embedded pointer to struct has no nils.
-- 
2.43.0


From c85e51f8a604b986198314be420f8da9f022baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 64/77] fix: generated UnmarshalNodeJSON did not unescape keys
 and did not compile for named key types

---
 internal/generator/unmarshal.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 364ed9e..8ad35e3 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -281,17 +281,19 @@ func (g *Generator) TextUnmarshaler(t types.Type) (code meta.Code) {
 
 // MapUnmarshaler generates the code block to unmarshal a map.
 func (g *Generator) MapUnmarshaler(t types.Type, m *types.Map) (code meta.Code) {
-	// TODO: Enforce string, TextUnmarshaler key type
 	typK := m.Key()
-	// var codeK meta.Code
-	// switch {
-	// case meta.IsString(typK):
-	// 	codeK = g.TypeUnmarshaler(typK)
-	// case types.Implements(typK, typTextUnmarshaler):
-	// 	codeK = g.TypeUnmarshaler(typK)
-	// default:
-	// 	return code.Errorf("Invalid key type %s", typK)
-	// }
+	var codeK meta.Code
+	switch {
+	case types.Implements(types.NewPointer(typK), typTextUnmarshaler):
+		codeK = g.Code(`
+		if err := k.UnmarshalText([]byte(strjson.Unescaped(values.Key()))); err != nil {
+			return err
+		}`)
+	case meta.IsString(typK):
+		codeK = g.Code(`k = %s(strjson.Unescaped(values.Key()))`, typK)
+	default:
+		return code.Errorf("Invalid map key type %s", typK)
+	}
 	typV := m.Elem()
 	codeV := g.TypeUnmarshaler(typV)
 	return g.Code(`
@@ -311,12 +313,14 @@ case njson.TypeObject:
 			r := &v
 			%[3]s
 		}
-		m[values.Key()] = v
+		var k %[1]s
+		%[4]s
+		m[k] = v
 	}
 default:
 	return n.TypeError(njson.TypeObject|njson.TypeNull)
 }
-`, typK, typV, codeV).Import(njsonPkg)
+`, typK, typV, codeV, codeK).Import(njsonPkg, strjsonPkg)
 }
 
 // RawStringUnmarshaler unmarshals strings without unescaping
@@ -371,10 +375,10 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 			return n.TypeError(njson.TypeObject)
 		}
 		for values := n.Values(); values.Next(); {
-			switch values.Key() {
+			switch strjson.Unescaped(values.Key()) {
 				%s
 			}
-		}`, code).Import(njsonPkg)
+		}`, code).Import(njsonPkg, strjsonPkg)
 
 }
 
-- 
2.43.0


From eb9658b3288c415d219df41c47d876d93267a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 65/77] fix: generated UnmarshalNodeJSON rejected null for
 structs and did not compile for structs without fields

---
 internal/generator/append.go    |  4 +++-
 internal/generator/unmarshal.go | 11 +++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 2b4c806..6fc14b2 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -136,7 +136,9 @@ func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.
 
 // StructAppender returns the AppendJSON block code for a struct
 func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
-	c = c.Println(`more := 0`)
+	c = c.Println(`
+	_ = v // There may be no fields
+	more := 0`)
 	used := make(map[string]bool)
 	for _, field := range sortedFields(fields) {
 		field = field.WithTag(g.TagKey())
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 8ad35e3..143aee5 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -86,7 +86,13 @@ func (g *Generator) TypeUnmarshaler(t types.Type) (code meta.Code) {
 	case *types.Map:
 		return g.MapUnmarshaler(t, typ)
 	case *types.Struct:
-		return g.StructUnmarshaler(typ)
+		return g.Code(`
+		if n.Type() == njson.TypeNull {
+			*r = %s{}
+		} else {
+			%s
+		}
+		`, t, g.StructUnmarshaler(typ)).Import(njsonPkg)
 	case *types.Slice:
 		return g.SliceUnmarshaler(t, typ)
 	case *types.Pointer:
@@ -371,8 +377,9 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 		}
 	}
 	return g.Code(`
+		_ = r // There may be no fields
 		if n.Type() != njson.TypeObject {
-			return n.TypeError(njson.TypeObject)
+			return n.TypeError(njson.TypeObject|njson.TypeNull)
 		}
 		for values := n.Values(); values.Next(); {
 			switch strjson.Unescaped(values.Key()) {
-- 
2.43.0


From 938a3426f529d951df29754688d4ce0599a14ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:14 +0000
Subject: [PATCH 66/77] fix: generated UnmarshalNodeJSON did not use the
 UnmarshalNodeJSON methods of fields

---
 internal/generator/unmarshal.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 143aee5..ba1335e 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -62,6 +62,13 @@ func (g *Generator) isDuration(t types.Type) bool {
 	return false
 }
 
+// isNodeJSONUnmarshaler checks if a type implements njson.Unmarshaler.
+// The njson package of the generator is not the one imported by the target package so types.Implements does not apply.
+func isNodeJSONUnmarshaler(t types.Type) bool {
+	m := types.NewMethodSet(t).Lookup(nil, methodNodeUnmarshalJSON.Name())
+	return m != nil && types.TypeString(m.Type(), nil) == types.TypeString(methodNodeUnmarshalJSON.Type(), nil)
+}
+
 // TypeUnmarshaler returns the code block for unmarshaling a type.
 func (g *Generator) TypeUnmarshaler(t types.Type) (code meta.Code) {
 	if t == nil {
@@ -74,7 +81,7 @@ func (g *Generator) TypeUnmarshaler(t types.Type) (code meta.Code) {
 		return g.TimeUnmarshaler(t)
 	case g.isDuration(t):
 		return g.DurationUnmarshaler(t)
-	case types.Implements(pt, typNodeJSONUnmarshaler):
+	case isNodeJSONUnmarshaler(pt):
 		return g.NodeJSONUnmarshaler(t)
 	case types.Implements(pt, typJSONUnmarshaler):
 		return g.JSONUnmarshaler(t)
@@ -219,7 +226,7 @@ func (g *Generator) EnsurePath(path meta.FieldPath) (code meta.Code) {
 // NodeJSONUnmarshaler generates code to wrap the UnmarshalNodeJSON method of a value.
 func (g *Generator) NodeJSONUnmarshaler(t types.Type) (code meta.Code) {
 	return g.Code(`
-	if err := v.%s(n); err != nil {
+	if err := r.%s(n); err != nil {
 		return err
 	}
 	`, methodNodeUnmarshalJSON.Name())
-- 
2.43.0


From c63a8cd6c150202738d4cf586160c46bad392ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:15 +0000
Subject: [PATCH 67/77] fix: generated UnmarshalNodeJSON took any value for raw
 strings

---
 internal/generator/unmarshal.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index ba1335e..f02c236 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -338,7 +338,16 @@ default:
 
 // RawStringUnmarshaler unmarshals strings without unescaping
 func (g *Generator) RawStringUnmarshaler(t types.Type) meta.Code {
-	return g.Code(`*r = %s(n.Raw())`, t)
+	return g.Code(`
+switch n.Type() {
+case njson.TypeString:
+	*r = %s(n.Raw())
+case njson.TypeNull:
+	*r = ""
+default:
+	return n.TypeError(njson.TypeString|njson.TypeNull)
+}
+`, t).Import(njsonPkg)
 }
 
 // StructUnmarshaler generates the code block to unmarshal a struct.
-- 
2.43.0


From 1f4a044f2d0b1fded7a65165372c5e1034245f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 68/77] fix: generated UnmarshalNodeJSON took any value for
 structs without fields

---
 internal/generator/unmarshal.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index f02c236..62d0cc0 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -411,10 +411,8 @@ func CanUnmarshal(t types.Type) bool {
 		return false
 	}
 	switch typ := t.Underlying().(type) {
-	case *types.Map:
+	case *types.Map, *types.Struct:
 		return true
-	case *types.Struct:
-		return typ.NumFields() > 0
 	case *types.Slice:
 		return CanUnmarshal(typ.Elem())
 	case *types.Pointer:
-- 
2.43.0


From c9e5d5d52e7ba4a78d158fe82e5609b6fb59c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 69/77] fix: the generator used tag names that are not valid
 keys, unlike encoding/json

---
 internal/generator/options.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/generator/options.go b/internal/generator/options.go
index 2596927..5998630 100644
--- a/internal/generator/options.go
+++ b/internal/generator/options.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"regexp"
 	"strings"
+	"unicode"
 
 	"github.com/alxarch/meta"
 
@@ -125,7 +126,7 @@ func (o *options) parseField(field *types.Var, tag string) (name string, t meta.
 	if ok = t.Name != "-"; !ok {
 		return
 	}
-	if t.Name == "" {
+	if t.Name == "" || !isValidName(t.Name) {
 		t.Name = o.JSONFieldName(name)
 	}
 
@@ -135,6 +136,16 @@ func (o *options) parseField(field *types.Var, tag string) (name string, t meta.
 	return
 }
 
+// isValidName checks if a tag name can be used as an object key. It follows encoding/json.
+func isValidName(name string) bool {
+	for _, c := range name {
+		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) && !unicode.IsLetter(c) && !unicode.IsDigit(c) {
+			return false
+		}
+	}
+	return true
+}
+
 func (o *options) MatchField(name string) bool {
 	if name == "_" {
 		return false
-- 
2.43.0


From 468a1dc348c061e8c973cf21a9a6ebb6facdc7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 70/77] fix: generated code used the wrong field for keys
 shared by embedded fields and did not compile for fields of structs of other
 packages

---
 internal/generator/append.go    | 21 +++--------
 internal/generator/generator.go | 62 +++++++++++++++++++++++++++++++++
 internal/generator/unmarshal.go | 23 ++----------
 3 files changed, 69 insertions(+), 37 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 6fc14b2..df90a18 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -139,30 +139,17 @@ func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 	c = c.Println(`
 	_ = v // There may be no fields
 	more := 0`)
-	used := make(map[string]bool)
-	for _, field := range sortedFields(fields) {
-		field = field.WithTag(g.TagKey())
-		name, tag, ok := g.parseField(field.Var, field.Tag)
-		if !ok {
-			continue
-		}
-		if tag.Name != "" {
-			name = tag.Name
-		}
-		if used[name] {
-			continue
-		}
-		used[name] = true
+	for _, field := range g.structFields(fields) {
 		var cf meta.Code
-		cf = g.TypeAppender(field.Type(), tag.Params)
+		cf = g.TypeAppender(field.Type(), field.params)
 		cf = g.Code(`
 				out = append(out, "{,"[more])
 				more = 1
 				out = append(out, %s...)
 				{
 					%s
-				}`, strconv.Quote(string(strjson.AppendEscaped([]byte{'"'}, name, false))+`":`), cf)
-		if tag.Params.Has(paramOmitempty) {
+				}`, strconv.Quote(string(strjson.AppendEscaped([]byte{'"'}, field.name, false))+`":`), cf)
+		if field.params.Has(paramOmitempty) {
 			cf = g.TypeOmiter(field.Type(), cf)
 		}
 		cf = g.EnsureReversePath(field.Path, cf)
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a36b5f5..24c22e4 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -66,6 +66,68 @@ func typePos(typ types.Type) token.Pos {
 	return token.NoPos
 }
 
+// structField is a field of a struct that is part of it's JSON.
+type structField struct {
+	meta.Field
+	name   string // key
+	params meta.Params
+	tagged bool // key is defined by a tag
+}
+
+// structFields returns the fields of a struct that are part of it's JSON.
+func (g *Generator) structFields(fields meta.Fields) (used []structField) {
+	all := []structField{}
+	seen := map[string]bool{}
+fields:
+	for _, field := range sortedFields(fields) {
+		for i, f := range field.Path {
+			if !f.Exported() && f.Pkg().Path() != g.Path() {
+				// Not accessible
+				continue fields
+			}
+			if tag, _ := meta.ParseTag(f.Tag, g.TagKey()); tag.Name != "" {
+				// Embedded structs with a name are fields
+				field = meta.Field{Var: f.Var, Tag: f.Tag, Path: field.Path[:i+1]}
+				break
+			}
+		}
+		if seen[field.Path.String()] {
+			continue
+		}
+		seen[field.Path.String()] = true
+		name, tag, ok := g.parseField(field.Var, field.Tag)
+		if !ok {
+			continue
+		}
+		tagged, _ := meta.ParseTag(field.Tag, g.TagKey())
+		if tag.Name != "" {
+			name = tag.Name
+		}
+		all = append(all, structField{field, name, tag.Params, tagged.Name == name})
+	}
+	for i := range all {
+		if isDominant(all, i) {
+			used = append(used, all[i])
+		}
+	}
+	return
+}
+
+// isDominant checks if a field is the one used for it's key using the rules of encoding/json
+func isDominant(fields []structField, i int) bool {
+	f := &fields[i]
+	for j := range fields {
+		ff := &fields[j]
+		if j == i || ff.name != f.name || len(ff.Path) > len(f.Path) {
+			continue
+		}
+		if len(ff.Path) < len(f.Path) || ff.tagged || !f.tagged {
+			return false
+		}
+	}
+	return true
+}
+
 // sortedFields returns all fields in the order they are declared in.
 func sortedFields(fields meta.Fields) (sorted []meta.Field) {
 	for name := range fields {
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 62d0cc0..043b856 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -353,29 +353,12 @@ default:
 // StructUnmarshaler generates the code block to unmarshal a struct.
 func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 	fields := meta.NewFields(t, true)
-	tagKey := g.TagKey()
-	used := make(map[string]bool)
-	for _, field := range sortedFields(fields) {
-		field = field.WithTag(tagKey)
-		if field.Name() == "_" {
-			continue
-		}
+	for _, field := range g.structFields(fields) {
 		if !CanUnmarshal(field.Type()) {
 			continue
 		}
-		name, tag, ok := g.parseField(field.Var, field.Tag)
-		if !ok {
-			continue
-		}
-		if tag.Name != "" {
-			name = tag.Name
-		}
-		if used[name] {
-			continue
-		}
-		used[name] = true
 		var cf meta.Code
-		if tag.Params.Has("raw") && meta.IsString(field.Type()) {
+		if field.params.Has("raw") && meta.IsString(field.Type()) {
 			cf = g.RawStringUnmarshaler(field.Type())
 		} else {
 			cf = g.TypeUnmarshaler(field.Type())
@@ -387,7 +370,7 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 					r := &r%s
 					%s
 				}
-				`, code, strconv.Quote(name), g.EnsurePath(field.Path), field.Path, cf)
+				`, code, strconv.Quote(field.name), g.EnsurePath(field.Path), field.Path, cf)
 		if code.Err() != nil {
 			return
 		}
-- 
2.43.0


From 82cada7211c5d4c0bb683a4ac4d782cfb1c2d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:44 +0000
Subject: [PATCH 71/77] fix: the generator never finished for recursive types

---
 internal/generator/append.go    | 11 +++++++++++
 internal/generator/generator.go | 19 +++++++++++++++++++
 internal/generator/unmarshal.go | 14 ++++++++++++++
 3 files changed, 44 insertions(+)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index df90a18..9b29605 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -197,6 +197,17 @@ func (g *Generator) PointerAppender(elem types.Type, params meta.Params) (c meta
 
 // TypeAppender returnds the AppendJSON block code for a type
 func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Code) {
+	if recursive, hasMethod := g.recursive(typ); hasMethod {
+		return g.Code(`
+		var err error
+		if out, err = v.%s(out); err != nil {
+			return out, err
+		}
+		`, g.AppendMethod())
+	} else if recursive {
+		return c.Error(typeError{typ})
+	}
+	defer g.nest(typ)()
 	_, isInterface := typ.Underlying().(*types.Interface)
 	methods := func(iface *types.Interface) bool {
 		if isInterface {
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 24c22e4..64134de 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -34,6 +34,7 @@ type Generator struct {
 	options
 	test    bool
 	buffer  bytes.Buffer
+	nested  []types.Type // types that code is being generated for
 	imports map[string]*types.Package
 }
 
@@ -208,6 +209,24 @@ func (g *Generator) Filename() (name string) {
 
 }
 
+// recursive checks if code for a type is part of the code for the same type.
+// In this case the code has to use the method generated for the type, which exists for the outermost type only.
+func (g *Generator) recursive(typ types.Type) (recursive, hasMethod bool) {
+	for i, t := range g.nested {
+		if types.Identical(t, typ) {
+			return true, i == 0
+		}
+	}
+	return
+}
+
+// nest marks a type as one that code is being generated for.
+func (g *Generator) nest(typ types.Type) (done func()) {
+	n := len(g.nested)
+	g.nested = append(g.nested, typ)
+	return func() { g.nested = g.nested[:n] }
+}
+
 // Reset resets the generator to start a new file.
 func (g *Generator) Reset() {
 	g.buffer.Reset()
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 043b856..2399044 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -75,6 +75,20 @@ func (g *Generator) TypeUnmarshaler(t types.Type) (code meta.Code) {
 		return code.Error(typeError{t})
 	}
 
+	if recursive, hasMethod := g.recursive(t); hasMethod {
+		return g.Code(`
+		if n.Type() == njson.TypeNull {
+			var zero %[1]s
+			*r = zero
+		} else if err := r.%[2]s(n); err != nil {
+			return err
+		}
+		`, t, g.UnmarshalMethod()).Import(njsonPkg)
+	} else if recursive {
+		return code.Error(typeError{t})
+	}
+	defer g.nest(t)()
+
 	pt := types.NewPointer(t)
 	switch {
 	case g.isTime(t):
-- 
2.43.0


From a4c3e36d621e1ee193261cb17eb220c33330fcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:46 +0000
Subject: [PATCH 72/77] fix: generated code did not compile for pointers to
 types of packages with a directory in their path

The full path was used as the qualifier of the type, as in net/url.Userinfo.
---
 internal/generator/generator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 64134de..329c75f 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -233,6 +233,18 @@ func (g *Generator) Reset() {
 	g.imports = nil
 }
 
+// Code formats a code block, types of other packages are qualified by the name of their package.
+func (g *Generator) Code(format string, args ...interface{}) (c meta.Code) {
+	return c.QPrintf(g.qualifier, format, args...)
+}
+
+func (g *Generator) qualifier(pkg *types.Package) string {
+	if g.Qualifier()(pkg) == "" {
+		return ""
+	}
+	return pkg.Name()
+}
+
 // Import adds packages to import in the generated file
 func (g *Generator) Import(imports ...*types.Package) {
 	if len(imports) == 0 {
-- 
2.43.0


From 20ed752d82fb32e0be3ce7eb2890e7753037c05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:53 +0000
Subject: [PATCH 73/77] fix: WriteUnmarshaler returns the error of types that
 are not supported

Formatting the code dropped the error, so that nothing was written for the type and no error was reported.
---
 internal/generator/unmarshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 2399044..887f631 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -38,10 +38,13 @@ func (g *Generator) Unmarshaler(typeName string) (code meta.Code) {
 
 // WriteUnmarshaler writes an unmarshaler method for a type in the generator's buffer.
 func (g *Generator) WriteUnmarshaler(typeName string) (err error) {
-	code := g.Unmarshaler(typeName).Format()
+	code := g.Unmarshaler(typeName)
 	if err = code.Err(); err != nil {
 		return
 	}
+	if code = code.Format(); code.Err() != nil {
+		return code.Err()
+	}
 
 	g.Import(code.Imports...)
 	_, err = g.buffer.Write(code.Code)
-- 
2.43.0


From 16d726b8ca3dfc82292ea22e4668a0dad03f1f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 74/77] fix: generated code lacked imports of packages used
 only inside of unnamed types

---
 internal/generator/generator.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 329c75f..6fc75b9 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -235,14 +235,16 @@ func (g *Generator) Reset() {
 
 // Code formats a code block, types of other packages are qualified by the name of their package.
 func (g *Generator) Code(format string, args ...interface{}) (c meta.Code) {
-	return c.QPrintf(g.qualifier, format, args...)
-}
-
-func (g *Generator) qualifier(pkg *types.Package) string {
-	if g.Qualifier()(pkg) == "" {
-		return ""
-	}
-	return pkg.Name()
+	var used []*types.Package
+	c = c.QPrintf(func(pkg *types.Package) string {
+		if g.Qualifier()(pkg) == "" {
+			return ""
+		}
+		used = append(used, pkg)
+		return pkg.Name()
+	}, format, args...)
+	c.Imports = append(c.Imports, used...)
+	return c
 }
 
 // Import adds packages to import in the generated file
-- 
2.43.0


From 386d6e8c661446544150d58e84bd1fcce3012f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:41 +0000
Subject: [PATCH 75/77] fix: the command ignored all type arguments but the
 first

---
 cmd/njson/njson.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/cmd/njson/njson.go b/cmd/njson/njson.go
index 54fd72e..3ad64e5 100644
--- a/cmd/njson/njson.go
+++ b/cmd/njson/njson.go
@@ -82,18 +82,29 @@ func main() {
 		logger.Fatal(err)
 	}
 
-	typeFilter := func(string) bool { return true }
-	switch match := flag.Arg(1); match {
-	case "", "*":
-	default:
-		if regexp.QuoteMeta(match) == match {
-			// match is not regexp
-			typeFilter = func(name string) bool { return name == match }
-		} else if rx, err := regexp.Compile(match); err != nil {
-			logger.Fatalln("Failed to compile match regex", err)
-		} else {
-			typeFilter = rx.MatchString
+	typeFilters := []func(string) bool{}
+	for i := 1; i < flag.NArg(); i++ {
+		switch match := flag.Arg(i); match {
+		case "", "*":
+			typeFilters = append(typeFilters, func(string) bool { return true })
+		default:
+			if regexp.QuoteMeta(match) == match {
+				// match is not regexp
+				typeFilters = append(typeFilters, func(name string) bool { return name == match })
+			} else if rx, err := regexp.Compile(match); err != nil {
+				logger.Fatalln("Failed to compile match regex", err)
+			} else {
+				typeFilters = append(typeFilters, rx.MatchString)
+			}
+		}
+	}
+	typeFilter := func(name string) bool {
+		for _, match := range typeFilters {
+			if match(name) {
+				return true
+			}
 		}
+		return len(typeFilters) == 0
 	}
 	types := []string{}
 	for _, t := range g.AllStructs() {
-- 
2.43.0


From e484570f5206378ae84cd2495f1d757de53631f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:25 +0000
Subject: [PATCH 76/77] fix: values of self-marshaling types of kinds without a
 rule were always omitted

---
 unjson/omit.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index 3703ef4..a889e21 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -208,13 +208,14 @@ func newOmiter(typ reflect.Type, methodName string) omiter {
 		return omitNil{}
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return omitInt{}
-	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return omitUint{}
 	case reflect.Float32, reflect.Float64:
 		return omitFloat{}
 	case reflect.Bool:
 		return omitBool{}
 	default:
-		return omitAlways{}
+		// Types of other kinds can only be encoded by their own methods
+		return omitNever{}
 	}
 }
-- 
2.43.0


From fd3598d0f40be146aa32e86773451ff3dd3326ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:20 +0000
Subject: [PATCH 77/77] fix: generated AppendJSON did not omit nil values of
 interface types with methods

---
 internal/generator/append.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 9b29605..5e4faa5 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -65,7 +65,9 @@ func (g *Generator) OmiterType() (string, *types.Interface) {
 func (g *Generator) TypeOmiter(typ types.Type, block meta.Code) meta.Code {
 	cond := ""
 	method, omiter := g.OmiterType()
-	if _, ok := typ.Underlying().(*types.Pointer); ok {
+	_, isPointer := typ.Underlying().(*types.Pointer)
+	_, isInterface := typ.Underlying().(*types.Interface)
+	if isPointer || isInterface {
 		cond = `v != nil`
 		if types.Implements(typ, omiter) {
 			cond += ` && !v.` + method + `()`
@@ -94,10 +96,6 @@ func (g *Generator) TypeOmiter(typ types.Type, block meta.Code) meta.Code {
 					return block.Error(fmt.Errorf("Omit basic error %s", typeError{typ}))
 				}
 			}
-		case *types.Interface:
-			if t.NumMethods() == 0 {
-				cond = `v != nil`
-			}
 		}
 
 	}
-- 
2.43.0

