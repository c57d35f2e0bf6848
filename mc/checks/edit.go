package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/alxarch/njson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C06", Level: "model_checking", Families: c06})
	core.Register(&core.Property{ID: "C07", Level: "model_checking", Families: c07})
}

func o(name string, f func(w *world)) op { return op{name, f} }

// rebuild makes a new free-standing value and re-points handle r at it.
func (w *world) rebuild(r, doc int, what string) {
	n, m := buildNode(w.docs[doc], what)
	w.created(doc, m)
	w.h[r].n, w.h[r].m = n, m
	w.logf("%s = doc%d.new(%s)", w.h[r].name, doc, what)
}

func (w *world) reparse(r, doc int, s string) {
	n, _, err := w.docs[doc].Parse(s)
	if err != nil {
		panic(fmt.Sprintf("parsing %q: %v", s, err))
	}
	v, _, _ := model.Parse(s)
	w.h[r].n, w.h[r].m = n, w.created(doc, fromVal(v, doc))
	w.logf("%s = doc%d.Parse(%s)", w.h[r].name, doc, s)
}

func (w *world) reset(doc int) {
	w.docs[doc].Reset()
	w.forget(doc)
	w.logf("doc%d.Reset()", doc)
}

func (w *world) forget(doc int) {
	w.mdocs[doc] = mdoc{empty: true}
	for i := range w.h {
		if w.h[i].m != nil && w.h[i].m.doc == doc {
			w.h[i].m = nil
		}
	}
}

// ---- starting worlds

func scArray(w *world) {
	r := w.parse(0, "R", `[1,"x",[2],{"a":3}]`)
	w.sub(r, 2)
	w.sub(r, 3)
	w.build(0, "F", "9")
	w.add("X", njson.Node{}, nil)
}

func scArrayOps(w *world) []op {
	const R, R2, R3, F, X = 0, 1, 2, 3, 4
	return []op{
		o("R.Append(F)", func(w *world) { w.appendOp(R, F) }),
		o("R.Append(X)", func(w *world) { w.appendOp(R, X) }),
		o("R.Append(F,X,R2)", func(w *world) { w.appendOp(R, F, X, R2) }),
		o("R.Replace(0,F)", func(w *world) { w.replace(R, 0, F) }),
		o("R.Replace(1,X)", func(w *world) { w.replace(R, 1, X) }),
		o("R.Remove(0)", func(w *world) { w.remove(R, 0) }),
		o("R.Remove(1)", func(w *world) { w.remove(R, 1) }),
		o("R.Remove(3)", func(w *world) { w.remove(R, 3) }),
		o("R.Slice(0,2)", func(w *world) { w.slice(R, 0, 2) }),
		o("R.Slice(1,3)", func(w *world) { w.slice(R, 1, 3) }),
		o("R.Slice(1,2)", func(w *world) { w.slice(R, 1, 2) }),
		o("R.Slice(1,4)", func(w *world) { w.slice(R, 1, 4) }),
		o("R2.Append(F)", func(w *world) { w.appendOp(R2, F) }),
		o("R2.Append(X)", func(w *world) { w.appendOp(R2, X) }),
		o("R3.Set(a,F)", func(w *world) { w.set(R3, F, "a") }),
		o("R3.Set(b,X)", func(w *world) { w.set(R3, X, "b") }),
		o("X.SetString", func(w *world) { w.scalar(X, 1) }),
		o("F.SetInt", func(w *world) { w.scalar(F, 0) }),
		o("R2.SetNull", func(w *world) { w.scalar(R2, 2) }),
		o("X=R[0]", func(w *world) { w.nav(X, R, 0) }),
		o("X=R[-1]", func(w *world) { w.nav(X, R, -1) }),
		o("X=R3.a", func(w *world) { w.nav(X, R3, "a") }),
		o("F=true", func(w *world) { w.rebuild(F, 0, "true") }),
	}
}

func scObject(w *world) {
	r := w.parse(0, "R", `{"a":1,"b":{"a":2,"c":[{"a":3}]},"c":"x","a":4}`)
	w.sub(r, "b")
	w.build(0, "F", "9")
	w.add("X", njson.Node{}, nil)
}

func scObjectOps(w *world) []op {
	const R, B, F, X = 0, 1, 2, 3
	return []op{
		o("R.Set(a,F)", func(w *world) { w.set(R, F, "a") }),
		o("R.Set(d,F)", func(w *world) { w.set(R, F, "d") }),
		o("R.Set(d,X)", func(w *world) { w.set(R, X, "d") }),
		o("R.Set(b,X)", func(w *world) { w.set(R, X, "b") }),
		o("R.Set('',B)", func(w *world) { w.set(R, B, "") }),
		o("R.Del(a)", func(w *world) { w.del(R, "a") }),
		o("R.Del(b)", func(w *world) { w.del(R, "b") }),
		o("R.Del(c)", func(w *world) { w.del(R, "c") }),
		o("R.Del(d)", func(w *world) { w.del(R, "d") }),
		o("R.Strip(a)", func(w *world) { w.strip(R, "a") }),
		o("R.Strip(c)", func(w *world) { w.strip(R, "c") }),
		o("B.Strip(a)", func(w *world) { w.strip(B, "a") }),
		o("B.Set(a,F)", func(w *world) { w.set(B, F, "a") }),
		o("B.Set(e,X)", func(w *world) { w.set(B, X, "e") }),
		o("B.Del(a)", func(w *world) { w.del(B, "a") }),
		o("X=R.a", func(w *world) { w.nav(X, R, "a") }),
		o("X=R.b", func(w *world) { w.nav(X, R, "b") }),
		o("X=R.d", func(w *world) { w.nav(X, R, "d") }),
		o("X=B.c", func(w *world) { w.nav(X, B, "c") }),
		o("X.SetFloat", func(w *world) { w.scalar(X, 4) }),
		o("X.SetString", func(w *world) { w.scalar(X, 1) }),
		o("F={}", func(w *world) { w.rebuild(F, 0, "{}") }),
		o("F='t'", func(w *world) { w.rebuild(F, 0, `"t"`) }),
	}
}

// scTight starts from documents whose node storage is exactly full, or becomes full after a step.
func scTight(doc string) func(w *world) {
	return func(w *world) {
		r := w.parse(0, "R", doc)
		if w.h[r].m.kind == model.Array {
			w.sub(r, 0)
		} else {
			w.sub(r, "a")
		}
		w.add("F", njson.Node{}, nil)
		w.parse(1, "S", `[[1,2],{"k":[3]}]`)
	}
}

func scTightOps(w *world) []op {
	const R, C, F, S = 0, 1, 2, 3
	return []op{
		o("R.Append(F)", func(w *world) { w.appendOp(R, F) }),
		o("R.Append(S)", func(w *world) { w.appendOp(R, S) }),
		o("R.Append(S,F,R)", func(w *world) { w.appendOp(R, S, F, R) }),
		o("R.Set(a,S)", func(w *world) { w.set(R, S, "a") }),
		o("R.Set(z,S)", func(w *world) { w.set(R, S, "z") }),
		o("R.Set(z,F)", func(w *world) { w.set(R, F, "z") }),
		o("R.Set(r,R)", func(w *world) { w.set(R, R, "r") }),
		o("C.Append(S)", func(w *world) { w.appendOp(C, S) }),
		o("C.Append(R,R)", func(w *world) { w.appendOp(C, R, R) }),
		o("C.Set(k,S)", func(w *world) { w.set(C, S, "k") }),
		o("C.Set(k,R)", func(w *world) { w.set(C, R, "k") }),
		o("R.Replace(0,S)", func(w *world) { w.replace(R, 0, S) }),
		o("R.Replace(1,R)", func(w *world) { w.replace(R, 1, R) }),
		o("F=[]", func(w *world) { w.rebuild(F, 0, "[]") }),
		o("F=parse", func(w *world) { w.reparse(F, 0, `{"n":[true]}`) }),
		o("C.SetInt", func(w *world) { w.scalar(C, 0) }),
		o("C=R[0]", func(w *world) { w.nav(C, R, 0) }),
		o("C=R.a", func(w *world) { w.nav(C, R, "a") }),
	}
}

// scWide has handles to everything.
func scWide(doc string, subs ...interface{}) func(w *world) {
	return func(w *world) {
		r := w.parse(0, "R", doc)
		for _, s := range subs {
			w.sub(r, s)
		}
		w.build(0, "A", "[]")
		w.build(0, "O", "{}")
		w.build(0, "N", "5")
		w.add("none", w.docs[0].Node(1<<40), nil)
		w.parse(1, "S", `{"a":[7],"q":{}}`)
	}
}

func c06(tr string) []core.Family {
	keysAB := []string{"a", "c"}
	wide := []scenario{
		{"array", scWide(`[1,[2,3],{"a":4,"c":{"a":5}}]`, 0, 1, 2), func(w *world) []op { return editOps(w, keysAB, true) }},
		{"object", scWide(`{"a":1,"b":[2,{"a":0}],"c":{"a":3,"a":4,"b":{"c":5,"a":6}},"a":7}`, "a", "b", "c"), func(w *world) []op { return editOps(w, keysAB, true) }},
	}
	narrow := []scenario{{"array", scArray, scArrayOps}, {"object", scObject, scObjectOps}}
	var tight []scenario
	for _, d := range []string{`[1]`, `[1,2]`, `[[],{}]`, `[{},1,2,3]`, `[[1],2,3,4,5]`, `{"a":1}`, `{"a":[],"b":2}`, `{"a":{"b":1,"c":2},"d":[3,4]}`, `{"a":[1,2,3,4,5]}`} {
		tight = append(tight, scenario{"tight " + d, scTight(d), scTightOps})
	}
	return []core.Family{
		{Name: "grow", Rule: "an array / object grown one element at a time to N by append / set, checked at each size, then shrunk by remove / del at each position class",
			Enum: func(emit func([]byte) bool) {
				for n := 0; n <= tier(tr, 140, 400); n++ {
					for _, k := range []string{"array", "object", "slice", "del", "multi", "nested"} {
						if !emit([]byte(fmt.Sprintf("%s %d", k, n))) {
							return
						}
					}
				}
				for _, n := range around(8, tier(tr, 10, 12)) {
					for _, k := range []string{"array", "object", "slice", "del", "multi", "nested"} {
						if !emit([]byte(fmt.Sprintf("%s %d", k, n))) {
							return
						}
					}
				}
			}, Check: growCheck},
		{Name: "scalars", Rule: "every setter and builder with boundary numbers and strings of every escape class, on nodes of every kind",
			Enum: scalarEnum, Check: scalarCheck, Show: func(c []byte) string { return scalarShow(c) }},
		{Name: "keys", Rule: "every edit by name on objects that hold two nearly equal keys: all lengths up to the bound (and around 64, 128, 256), all positions, all kinds of difference",
			Enum: keyPairEnum(tier(tr, 40, 90)), Check: keyEdit},
		histFamily("wide", "every pair of edits with every handle (9) as destination and operand, 2 start documents", wide, func(int) int { return 2 }, freshDocs),
		histFamily("array", "all edit histories over 23 operations on nested arrays and 23 on nested objects up to the depth", narrow, func(int) int { return tier(tr, 4, 5) }, freshDocs),
		histFamily("tight", "all edit histories over 18 operations from 9 documents whose storage is exactly full", tight, func(int) int { return tier(tr, 4, 4) }, freshDocs),
		histFamily("reused", "the same from recycled documents, one operation less deep", narrow, func(int) int { return tier(tr, 3, 4) }, usedDocs),
	}
}

func growCheck(t *core.T, c []byte) {
	var kind string
	var n int
	fmt.Sscanf(string(c), "%s %d", &kind, &n)
	var d njson.Document
	w := newWorld(&d, &njson.Document{})
	w.quiet = true
	switch kind {
	case "array", "slice", "multi":
		w.build(0, "A", "[]")
	case "nested":
		w.build(0, "root", "{}")
		w.build(0, "A", "[]")
		w.set(0, 1, "list")
		w.h[0], w.h[1] = w.h[1], w.h[0]
	default:
		w.build(0, "O", "{}")
	}
	x := w.add("x", njson.Node{}, nil)
	var multi []int
	for i := 0; i < n; i++ {
		t.Steps(1)
		w.rebuild(x, 0, fmt.Sprint(i))
		switch kind {
		case "array", "slice", "nested":
			w.appendOp(0, x)
		case "multi":
			multi = append(multi, w.add("m", w.h[x].n, w.h[x].m))
		default:
			w.set(0, x, fmt.Sprint("key", i))
		}
	}
	if multi != nil {
		w.appendOp(0, multi...)
		w.h = w.h[:2]
	}
	w.verify(t)
	switch kind {
	case "array", "nested", "multi":
		for _, i := range []int{n - 1, n / 2, 0, n, -1} {
			w.remove(0, i)
			w.verify(t)
		}
		w.rebuild(x, 0, "[]")
		w.appendOp(0, x)
	case "slice":
		w.slice(0, n/3, n-n/4)
		w.verify(t)
		w.slice(0, 1, len(w.h[0].m.kids))
		w.rebuild(x, 0, "[]")
		w.appendOp(0, x, x)
		w.appendOp(0, x)
	default:
		for _, i := range []int{n - 1, n / 2, 0, n, -1} {
			w.del(0, fmt.Sprint("key", i))
			w.verify(t)
			w.rebuild(x, 0, "-1")
			w.set(0, x, fmt.Sprint("key", (i+2)/2))
		}
	}
	w.verify(t)
}

var scalarStrings = func() (out []string) {
	for i := 0; i < 0x300; i++ {
		out = append(out, string(rune(i)), "a"+string(rune(i))+"b")
	}
	out = append(out, "", "\u2028", "\u2029x", "😀", "<&>", `"\`, "\xff", "a\xc3", "\xed\xa0\x80", "\ufeff", "\ufffd", strings.Repeat("x", 100), strings.Repeat("\"", 70))
	return
}()

var scalarFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.3, 1.5, 1e21, 1e20, 999999999999999999999, 1e-6, 1e-7, 1.234e-7, 123456789, 1e22, 1e23, 5e-324, math.MaxFloat64, -math.MaxFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Pi, 2.5e-10, 4503599627370497.5, 9007199254740993, 1 << 53}
var scalarInts = []int64{0, 1, -1, 9, 10, 99, 100, 255, 256, 1<<31 - 1, -1 << 31, 1<<53 + 1, math.MaxInt64, math.MinInt64, -12345678901}
var scalarUints = []uint64{0, 1, 10, math.MaxUint64, math.MaxInt64, 1 << 63, 18446744073709551609}

// scalarEnum: kind of the node overwritten x setter x value index.
func scalarEnum(emit func([]byte) bool) {
	for tgt := 0; tgt < len(scalarTargets)+1; tgt++ {
		for f, n := range []int{len(scalarStrings), len(scalarStrings), len(scalarFloats), len(scalarInts), len(scalarUints), 3} {
			if tgt == len(scalarTargets) && (f == 3 || f == 4) {
				continue // no such builder
			}
			for i := 0; i < n; i++ {
				if !emit([]byte{byte(tgt), byte(f), byte(i >> 8), byte(i)}) {
					return
				}
			}
		}
	}
}

var scalarTargets = []string{`1`, `"x"`, `null`, `true`, `[1,[2]]`, `{"a":1}`, `[]`, `{}`}

func scalarShow(c []byte) string {
	t := "new value"
	if int(c[0]) < len(scalarTargets) {
		t = "overwrite " + scalarTargets[c[0]]
	}
	i := int(c[2])<<8 | int(c[3])
	switch c[1] {
	case 0, 1:
		return fmt.Sprintf("%s with string(html=%v) %q", t, c[1] == 1, scalarStrings[i])
	case 2:
		return fmt.Sprintf("%s with float %v", t, scalarFloats[i])
	case 3:
		return fmt.Sprintf("%s with int %v", t, scalarInts[i])
	case 4:
		return fmt.Sprintf("%s with uint %v", t, scalarUints[i])
	}
	return fmt.Sprintf("%s with literal %d", t, i)
}

func scalarCheck(t *core.T, c []byte) {
	i := int(c[2])<<8 | int(c[3])
	var d njson.Document
	var n njson.Node
	build := int(c[0]) == len(scalarTargets)
	root := d.Array()
	t.Steps(1)
	if !build {
		var err error
		n, _, err = d.Parse(scalarTargets[c[0]])
		if err != nil {
			t.Failf("%v", err)
		}
		root.Append(d.Null(), n, d.Null())
	}
	var want interface{}
	kind := njson.TypeNumber
	switch c[1] {
	case 0, 1:
		s := scalarStrings[i]
		switch {
		case build && c[1] == 0:
			n = d.Text(s)
		case build:
			n = d.TextHTML(s)
		case c[1] == 0:
			n.SetString(s)
		default:
			n.SetStringHTML(s)
		}
		want = strings.ToValidUTF8(s, "\ufffd")
		if len(s) > 0 && want == "" || s == "\xed\xa0\x80" {
			want = "\ufffd\ufffd\ufffd"
		}
		kind = njson.TypeString
		if c[1] == 1 && strings.ContainsAny(n.Raw(), "<>&") {
			t.Failf("HTML escaping leaves %q", n.Raw())
		}
	case 2:
		f := scalarFloats[i]
		if build {
			n = d.Number(f)
		} else {
			n.SetFloat(f)
		}
		want = f
	case 3:
		n.SetInt(scalarInts[i])
		want = json.Number(fmt.Sprint(scalarInts[i]))
	case 4:
		n.SetUint(scalarUints[i])
		want = json.Number(fmt.Sprint(scalarUints[i]))
	case 5:
		switch i {
		case 0:
			if build {
				n = d.True()
			} else {
				n.SetTrue()
			}
			want, kind = true, njson.TypeBoolean
		case 1:
			if build {
				n = d.False()
			} else {
				n.SetFalse()
			}
			want, kind = false, njson.TypeBoolean
		case 2:
			if build {
				n = d.Null()
			} else {
				n.SetNull()
			}
			want, kind = nil, njson.TypeNull
		}
	}
	if build {
		root.Append(d.Null(), n, d.Null())
	}
	b, err := d.AppendJSON(nil)
	if err != nil || !json.Valid(b) {
		t.Failf("document serialises as %q, %v", b, err)
	}
	t.StateBytes(b)
	if n.Type() != kind {
		t.Failf("kind %v, want %v", n.Type(), kind)
	}
	if it := n.Values(); it.Len() != 0 {
		t.Failf("a scalar has %d members", it.Len())
	}
	var got []interface{}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	if _, ok := want.(json.Number); ok {
		dec.UseNumber()
	}
	if err := dec.Decode(&got); err != nil || len(got) != 3 || got[0] != nil || got[2] != nil {
		t.Failf("document serialises as %q", b)
	}
	if got[1] != want {
		t.Failf("stored %#v, want %#v (%s)", got[1], want, b)
	}
	if f, ok := want.(float64); ok && math.Signbit(f) != math.Signbit(got[1].(float64)) {
		t.Failf("sign of zero lost: %s", b)
	}
}

// ---- C07

func scInsert(w *world) {
	r := w.parse(0, "R", `[{"a":1}]`) // root: always copied
	w.build(0, "A", "[]")
	w.build(0, "O", "{}")
	w.parse(0, "P", `{"a":[]}`) // free, with a nested array
	w.sub(3, "a")
	w.sub(r, 0)
	w.parse(1, "S", `[{"x":[1]}]`)
	w.add("X", njson.Node{}, nil)
}

func scInsertOps(w *world) []op {
	const R, A, O, P, PA, R0, S, X = 0, 1, 2, 3, 4, 5, 6, 7
	return []op{
		o("A.Append(O)", func(w *world) { w.appendOp(A, O) }),
		o("A.Append(A)", func(w *world) { w.appendOp(A, A) }),
		o("A.Append(P)", func(w *world) { w.appendOp(A, P) }),
		o("A.Append(R)", func(w *world) { w.appendOp(A, R) }),
		o("A.Append(S)", func(w *world) { w.appendOp(A, S) }),
		o("A.Append(X,X)", func(w *world) { w.appendOp(A, X, X) }),
		o("O.Set(a,A)", func(w *world) { w.set(O, A, "a") }),
		o("O.Set(p,P)", func(w *world) { w.set(O, P, "p") }),
		o("O.Set(o,O)", func(w *world) { w.set(O, O, "o") }),
		o("O.Set(x,X)", func(w *world) { w.set(O, X, "x") }),
		o("PA.Append(A)", func(w *world) { w.appendOp(PA, A) }),
		o("PA.Append(P)", func(w *world) { w.appendOp(PA, P) }),
		o("PA.Append(O)", func(w *world) { w.appendOp(PA, O) }),
		o("P.Set(b,O)", func(w *world) { w.set(P, O, "b") }),
		o("P.Set(a,A)", func(w *world) { w.set(P, A, "a") }),
		o("R.Append(P)", func(w *world) { w.appendOp(R, P) }),
		o("R.Append(A)", func(w *world) { w.appendOp(R, A) }),
		o("R.Append(R0)", func(w *world) { w.appendOp(R, R0) }),
		o("R.Replace(0,A)", func(w *world) { w.replace(R, 0, A) }),
		o("R0.Set(a,R)", func(w *world) { w.set(R0, R, "a") }),
		o("R0.Set(b,O)", func(w *world) { w.set(R0, O, "b") }),
		o("S.Append(A)", func(w *world) { w.appendOp(S, A) }),
		o("S.Append(S)", func(w *world) { w.appendOp(S, S) }),
		o("X=A[0]", func(w *world) { w.nav(X, A, 0) }),
		o("X=A[-1]", func(w *world) { w.nav(X, A, -1) }),
		o("X=O.a", func(w *world) { w.nav(X, O, "a") }),
		o("X=R[-1]", func(w *world) { w.nav(X, R, -1) }),
		o("X=S[-1]", func(w *world) { w.nav(X, S, -1) }),
		o("X.SetInt", func(w *world) { w.scalar(X, 0) }),
		o("O.SetNull", func(w *world) { w.scalar(O, 2) }),
		o("A.Remove(0)", func(w *world) { w.remove(A, 0) }),
		o("doc1.Reset", func(w *world) { w.reset(1) }),
		o("S=doc1.Parse", func(w *world) { w.reparse(S, 1, `[[9,8],{"y":7}]`) }),
	}
}

// scOwn: ownership states of one value (free, placed, removed, copied) and containers it may go to.
func scOwn(w *world) {
	w.build(0, "R", "[]")
	w.build(0, "A", "[]")
	w.build(0, "B", "{}")
	w.parse(0, "V", `[0]`)
	w.add("X", njson.Node{}, nil)
}

func scOwnOps(w *world) []op {
	const R, A, B, V, X = 0, 1, 2, 3, 4
	return []op{
		o("A.Append(V)", func(w *world) { w.appendOp(A, V) }),
		o("B.Set(v,V)", func(w *world) { w.set(B, V, "v") }),
		o("R.Append(V)", func(w *world) { w.appendOp(R, V) }),
		o("R.Append(A)", func(w *world) { w.appendOp(R, A) }),
		o("R.Append(B,A,V)", func(w *world) { w.appendOp(R, B, A, V) }),
		o("V.Append(A)", func(w *world) { w.appendOp(V, A) }),
		o("V.Append(B)", func(w *world) { w.appendOp(V, B) }),
		o("V.Append(R)", func(w *world) { w.appendOp(V, R) }),
		o("V.Append(X)", func(w *world) { w.appendOp(V, X) }),
		o("B.Set(a,A)", func(w *world) { w.set(B, A, "a") }),
		o("A.Append(B)", func(w *world) { w.appendOp(A, B) }),
		o("A.Append(X)", func(w *world) { w.appendOp(A, X) }),
		o("B.Set(x,X)", func(w *world) { w.set(B, X, "x") }),
		o("B.Set(v,B)", func(w *world) { w.set(B, B, "v") }),
		o("A.Remove(0)", func(w *world) { w.remove(A, 0) }),
		o("B.Del(v)", func(w *world) { w.del(B, "v") }),
		o("R.Replace(0,X)", func(w *world) { w.replace(R, 0, X) }),
		o("A.SetInt", func(w *world) { w.scalar(A, 0) }),
		o("X=A[0]", func(w *world) { w.nav(X, A, 0) }),
		o("X=B.v", func(w *world) { w.nav(X, B, "v") }),
		o("X=R[-1]", func(w *world) { w.nav(X, R, -1) }),
		o("X=V[-1]", func(w *world) { w.nav(X, V, -1) }),
		o("X.SetString", func(w *world) { w.scalar(X, 1) }),
		o("V.SetTrue", func(w *world) { w.scalar(V, 5) }),
	}
}

// scCross: two documents exchanging values, each reset and refilled.
func scCross(w *world) {
	w.parse(0, "R", `{"k":[1,{"a":"x"}]}`)
	w.parse(1, "S", `[{"m":[2]},"t"]`)
	w.build(0, "A", "[]")
	w.build(1, "B", "[]")
	w.sub(0, "k")
	w.sub(1, 0)
	w.add("X", njson.Node{}, nil)
}

func scCrossOps(w *world) []op {
	const R, S, A, B, RK, S0, X = 0, 1, 2, 3, 4, 5, 6
	return []op{
		o("R.Set(s,S)", func(w *world) { w.set(R, S, "s") }),
		o("R.Set(k,S0)", func(w *world) { w.set(R, S0, "k") }),
		o("R.Set(b,B)", func(w *world) { w.set(R, B, "b") }),
		o("A.Append(B,S)", func(w *world) { w.appendOp(A, B, S) }),
		o("B.Append(A,R)", func(w *world) { w.appendOp(B, A, R) }),
		o("B.Append(A)", func(w *world) { w.appendOp(B, A) }),
		o("S.Append(RK)", func(w *world) { w.appendOp(S, RK) }),
		o("S.Replace(0,R)", func(w *world) { w.replace(S, 0, R) }),
		o("S0.Set(r,RK)", func(w *world) { w.set(S0, RK, "r") }),
		o("A.Append(A)", func(w *world) { w.appendOp(A, A) }),
		o("X=R.s", func(w *world) { w.nav(X, R, "s") }),
		o("X=B[0]", func(w *world) { w.nav(X, B, 0) }),
		o("X=A[-1]", func(w *world) { w.nav(X, A, -1) }),
		o("X.SetInt", func(w *world) { w.scalar(X, 0) }),
		o("S0.SetString", func(w *world) { w.scalar(S0, 1) }),
		o("RK.Append(X)", func(w *world) { w.appendOp(RK, X) }),
		o("doc0.Reset", func(w *world) { w.reset(0) }),
		o("doc1.Reset", func(w *world) { w.reset(1) }),
		o("R=doc0.Parse", func(w *world) { w.reparse(R, 0, `{"z":[[],[],"q"]}`) }),
		o("S=doc1.Parse", func(w *world) { w.reparse(S, 1, `[5,{"w":{"v":[]}}]`) }),
	}
}

func c07(tr string) []core.Family {
	wide := []scenario{
		{"wide", func(w *world) {
			scInsert(w)
			w.build(1, "T", "{}")
			w.build(0, "N", `"n"`)
		}, func(w *world) (out []op) {
			nh := len(w.h)
			for d := 0; d < nh; d++ {
				for s := 0; s < nh; s++ {
					d, s := d, s
					out = append(out,
						o(opName(w.h, "Set", d, "a,"+w.h[s].name), func(w *world) { w.set(d, s, "a") }),
						o(opName(w.h, "Append", d, w.h[s].name), func(w *world) { w.appendOp(d, s) }),
						o(opName(w.h, "Append", d, w.h[s].name+" twice"), func(w *world) { w.appendOp(d, s, s) }),
						o(opName(w.h, "Replace", d, "0,"+w.h[s].name), func(w *world) { w.replace(d, 0, s) }))
				}
				d := d
				out = append(out, o(w.h[d].name+".SetInt", func(w *world) { w.scalar(d, 0) }))
				out = append(out, o("X="+w.h[d].name+"[-1]", func(w *world) { w.nav(7, d, -1) }))
				out = append(out, o("X="+w.h[d].name+".a", func(w *world) { w.nav(7, d, "a") }))
			}
			return
		}},
	}
	return []core.Family{
		histFamily("wide", "every pair of insertions / overwrites with every handle (10, two documents) as source and destination", wide, func(int) int { return 2 }, freshDocs),
		histFamily("ownership", "all histories over 24 insertions, removals, navigations and overwrites of one value and three containers", []scenario{{"own", scOwn, scOwnOps}}, func(int) int { return tier(tr, 4, 5) }, freshDocs),
		histFamily("insert", "all histories over 33 insertions among root, free, nested and foreign values", []scenario{{"insert", scInsert, scInsertOps}}, func(int) int { return tier(tr, 4, 5) }, freshDocs),
		histFamily("cross", "all histories over 20 exchanges, resets and refills of two documents", []scenario{{"cross", scCross, scCrossOps}}, func(int) int { return tier(tr, 4, 5) }, freshDocs),
		histFamily("cross-reused", "the same on recycled documents, one operation less deep", []scenario{{"cross", scCross, scCrossOps}, {"own", scOwn, scOwnOps}, {"insert", scInsert, scInsertOps}}, func(int) int { return tier(tr, 3, 4) }, usedDocs),
		{Name: "huge", Timeout: 5 * time.Minute, Rule: "arrays and objects of 255 to 257, 4097 and 65533 to 70000 members: inserted into themselves, beside themselves and into another document, then edited at both ends on either side",
			Enum: func(emit func([]byte) bool) {
				for _, n := range []int{255, 256, 257, 4097, 65533, 65534, 65535, 65536, 70000} {
					for k := 0; k < 16; k++ {
						if !emit([]byte(fmt.Sprintf("%d %d", n, k))) {
							return
						}
					}
				}
			}, Check: hugeCheck, Show: func(c []byte) string { return "n, variant = " + string(c) }},
		{Name: "chain", Rule: "two containers inserted into each other alternately N times: sizes as in the model, N up to 18", Enum: func(emit func([]byte) bool) {
			for n := 0; n <= 18; n++ {
				for k := 0; k < 8; k++ {
					if !emit([]byte{byte(n), byte(k)}) {
						return
					}
				}
			}
		}, Check: func(t *core.T, c []byte) {
			w := newWorld(&njson.Document{}, &njson.Document{})
			w.quiet = true
			w.build(0, "R", "[]")
			w.build(0, "A", "[]")
			w.build(int(c[1])&1, "B", "{}")
			for i := 0; i < int(c[0]); i++ {
				t.Steps(1)
				if i%2 == int(c[1]>>1)&1 {
					w.appendOp(1, 2)
				} else {
					w.set(2, 1, fmt.Sprint("k", i))
				}
				if c[1]&4 != 0 {
					w.appendOp(0, 1)
				}
				if w.h[1].m.val().Size() > 3000 || w.h[0].m.val().Size() > 6000 {
					break
				}
			}
			w.verify(t)
		}, Show: func(c []byte) string { return fmt.Sprintf("n=%d variant=%d", c[0], c[1]) }},
	}
}

// hugeCheck: documents whose nodes do not fit smaller integers.
func hugeCheck(t *core.T, c []byte) {
	var n, k int
	fmt.Sscan(string(c), &n, &k)
	var d, e njson.Document
	text := func(first, last int, own string) string {
		var b strings.Builder
		b.WriteByte("[{"[k&1])
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			if k&1 != 0 {
				fmt.Fprintf(&b, `"k%d":`, i)
			}
			switch {
			case i == 0 && first >= 0:
				fmt.Fprint(&b, first)
			case i == n-1 && last >= 0:
				fmt.Fprint(&b, last)
			default:
				fmt.Fprintf(&b, `"v%d"`, i)
			}
		}
		if own != "" {
			b.WriteByte(',')
			if k&1 != 0 {
				b.WriteString(`"own":`)
			}
			b.WriteString(own)
		}
		b.WriteByte("]}"[k&1])
		return b.String()
	}
	src := text(-1, -1, "")
	put := func(dst njson.Node, key string, v njson.Node) {
		if dst.Type() == njson.TypeObject {
			dst.Set(key, v)
		} else {
			dst.Append(v)
		}
	}
	at := func(v njson.Node, i int) njson.Node {
		if k&1 != 0 {
			return v.Get(fmt.Sprint("k", i))
		}
		return v.Index(i)
	}
	r, _, err := d.Parse(src)
	if err != nil {
		t.Failf("%v", err)
		return
	}
	t.Steps(4)
	switch k >> 1 & 3 {
	case 0: // into itself: a copy
		put(r, "own", r)
		at(r, 0).SetInt(1)
		at(r, n-1).SetInt(2)
		mustJSON(t, r, []byte(text(1, 2, src)), "inserted into itself")
	case 1: // beside itself: a copy
		a := d.Array()
		a.Append(r)
		a.Append(r)
		at(a.Index(1), n-1).SetInt(7)
		at(r, 0).SetInt(1)
		mustJSON(t, a, []byte("["+src+","+text(-1, 7, "")+"]"), "the copies")
		mustJSON(t, r, []byte(text(1, -1, "")), "the original")
	case 2: // into another document
		if k&8 != 0 { // one that is as large
			e.Parse(src)
		}
		a := e.Object()
		a.Set("x", r)
		at(a.Get("x"), n-1).SetInt(7)
		at(r, 0).SetInt(1)
		put(r, "own", a.Get("x"))
		mustJSON(t, a, []byte(`{"x":`+text(-1, 7, "")+"}"), "the copy")
		mustJSON(t, r, []byte(text(1, -1, text(-1, 7, ""))), "the original")
		d.Reset()
		mustJSON(t, a, []byte(`{"x":`+text(-1, 7, "")+"}"), "the copy after a reset of the other document")
	case 3: // a free-standing value made behind it is moved
		a := d.Array()
		x := d.Text("x")
		a.Append(x)
		put(r, "own", a)
		a.Append(d.Number(1))
		x.SetString("y")
		at(r, n-1).SetInt(7)
		mustJSON(t, r, []byte(text(-1, 7, `["y",1]`)), "with the moved value")
	}
	t.State(src)
}
