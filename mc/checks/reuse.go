package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C04", Level: "model_checking", Families: c04, Quick: 120, Thorough: 800})
	core.Register(&core.Property{ID: "C05", Level: "model_checking", Families: c05, Quick: 120, Thorough: 800,
		Assumptions: []string{"The revision counter of a document does not wrap around (2^64 resets)."}})
}

// ---------------------------------------------------------------- C04

var reuseTexts = []string{
	`[1,[2,3],{"a":4}]`,
	`{"a":{"b":[1,2,3,4,5,6,7,8,9]},"c":"x"}`,
	`"s"`,
	`[[[[]]],{}]`,
	`{"k":1,"k":{"k":[]}}`,
	`[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17]`,
	`{"a":1,"b":2,"c":3,"d":4,"e":{"f":5,"g":[6]}}`,
	`{}`,
}

var reuseBroken = []string{`[1,[2,`, `{"a":[1,2,3],"b":{"c":}`, `[[[1,2,3],[4],[5,6`, `{"a":{"x":1},"b":nul`, `[{"a":1,"b":2},{"c":3}`, `tru`, `[1,2,3,4,5,6,7,8,9,0 1]`, `{"q":{"r":{"s":[{"t":1,"u":2},`}

func (w *world) last() int { return len(w.h) - 1 }

func reuseOps(w *world) (out []op) {
	add := func(name string, f func(w *world)) { out = append(out, op{name, f}) }
	for i, s := range reuseTexts {
		i, s := i, s
		add("parse "+s, func(w *world) { w.parse(0, fmt.Sprintf("P%d", i), s) })
	}
	for _, s := range reuseBroken {
		s := s
		add("parse "+s+" (fails)", func(w *world) {
			w.logf("parse %s fails", s)
			if n, rest, err := w.docs[0].Parse(s); err == nil {
				panic(fmt.Sprintf("%q parses as %v rest %q", s, n.Type(), rest))
			}
		})
	}
	add("build array", func(w *world) {
		w.build(0, "A", "[]")
		a := w.last()
		w.build(0, "A0", "true")
		w.build(0, "A1", "7")
		w.appendOp(a, a+1, a+2)
		w.h[a+1], w.h[a+2], w.h[a] = w.h[a], w.h[a+1], w.h[a+2]
	})
	add("build object", func(w *world) {
		w.build(0, "O", "{}")
		o := w.last()
		w.build(0, "O0", "[]")
		w.build(0, "O1", `"t"`)
		w.set(o, o+2, "t")
		w.set(o, o+1, "l")
		w.appendOp(o+1, o+2)
		w.h[o], w.h[o+2] = w.h[o+2], w.h[o]
	})
	if true {
		edit := func(name string, f func(w *world, r int)) {
			add(name, func(w *world) {
				if r := w.last(); r >= 0 {
					w.logf("%s", name)
					f(w, r)
				}
			})
		}
		edit("last.Append(copy of last)", func(w *world, r int) { w.appendOp(r, r) })
		edit("last.Set(z, first)", func(w *world, r int) { w.set(r, 0, "z") })
		edit("last.Del/Remove", func(w *world, r int) { w.del(r, "a"); w.remove(r, 1) })
		edit("last.Slice(0,1)/Strip(b)", func(w *world, r int) { w.slice(r, 0, 1); w.strip(r, "b") })
		edit("last.SetInt", func(w *world, r int) { w.scalar(r, 0) })
		edit("last child overwritten", func(w *world, r int) {
			m := w.h[r].m
			if m != nil && len(m.kids) > 0 {
				k := 0
				if m.kind == model.Array {
					k = w.sub(r, len(m.kids)-1)
				} else {
					k = w.sub(r, m.keys[0])
				}
				w.scalar(k, 1)
			}
		})
	}
	add("last child inserted again, original overwritten", func(w *world) {
		r := w.last()
		if r < 0 || w.h[r].m == nil || len(w.h[r].m.kids) == 0 {
			return
		}
		m := w.h[r].m
		if m.kind == model.Array {
			k := w.sub(r, len(m.kids)-1)
			w.appendOp(r, k)
			w.scalar(k, 3)
		} else {
			k := w.sub(r, m.keys[len(m.keys)-1])
			w.set(r, k, "again")
			w.scalar(k, 3)
		}
		w.h[r], w.h[w.last()] = w.h[w.last()], w.h[r]
	})
	add("Reset", func(w *world) { w.reset(0) })
	add("Pool.Put+Get", func(w *world) {
		w.logf("pool round trip")
		w.pool.Put(w.docs[0])
		w.docs[0] = w.pool.Get()
		w.forget(0)
	})
	add("Close+Blank", func(w *world) {
		w.logf("Close, Blank")
		w.docs[0].Close()
		w.docs[0] = njson.Blank()
		w.forget(0)
	})
	return
}

func c04(tr string) []core.Family {
	fresh := []scenario{{"", func(w *world) {}, reuseOps}}
	shapes := shapeList(tier(tr, 5, 6))
	sizes := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}
	kinds := []string{"array", "object", "rows", "deep", "mixed", "wideobj"}
	sized := func(k, n int) string {
		switch kinds[k] {
		case "array":
			return "[" + strings.Join(seqS(n, func(i int) string { return fmt.Sprint(i) }), ",") + "]"
		case "object":
			return "{" + strings.Join(seqS(n, func(i int) string { return fmt.Sprintf(`"k%d":%d`, i, i) }), ",") + "}"
		case "rows":
			return "[" + strings.Join(seqS(n, func(i int) string { return fmt.Sprintf(`[%d,{"x":"%d"}]`, i, i) }), ",") + "]"
		case "deep":
			return strings.Repeat(`[`, n) + "0" + strings.Repeat(`]`, n)
		case "wideobj":
			return "{" + strings.Join(seqS(n, func(i int) string { return fmt.Sprintf(`"o%d":{"p":[%d],"q":{}}`, i, i) }), ",") + "}"
		}
		return "[" + strings.Join(seqS(n, func(i int) string { return []string{"1", "[]", `{"a":[1,2]}`, `"x"`, "null"}[i%5] }), ",") + "]"
	}
	nk := len(kinds) * len(sizes)
	return []core.Family{
		histFamily("histories", "all histories of parses of 8 texts, 8 failing parses, 2 builds, 6 edits, reset and pool round trips up to the depth; every value since the last reset compared after them", fresh, func(int) int { return tier(tr, 4, 5) }, func(t *core.T) []*njson.Document { return []*njson.Document{{}, {}} }),
		{Name: "pairs", Rule: fmt.Sprintf("every ordered pair (A, B) of %d document shapes: A parsed (whole, and cut at every place), reset, B parsed, C built on top; and B parsed next to A", len(shapes)),
			Enum: func(emit func([]byte) bool) {
				for i := range shapes {
					for j := range shapes {
						if !emit(binary.BigEndian.AppendUint16(binary.BigEndian.AppendUint16(nil, uint16(i)), uint16(j))) {
							return
						}
					}
				}
			}, Check: func(t *core.T, c []byte) {
				a, b := shapes[binary.BigEndian.Uint16(c)], shapes[binary.BigEndian.Uint16(c[2:])]
				reusePair(t, a, b, len(shapes) < 3000)
			}, Show: func(c []byte) string {
				return fmt.Sprintf("A=%s B=%s", shapes[binary.BigEndian.Uint16(c)], shapes[binary.BigEndian.Uint16(c[2:])])
			}},
		{Name: "sizes", Rule: fmt.Sprintf("every ordered pair of %d documents (6 layouts, sizes around the growth steps up to 129): parse, reset, parse, grow, reset, parse", nk),
			Enum: func(emit func([]byte) bool) {
				for i := 0; i < nk; i++ {
					for j := 0; j < nk; j++ {
						if !emit([]byte{byte(i), byte(j)}) {
							return
						}
					}
				}
			}, Check: func(t *core.T, c []byte) {
				a := sized(int(c[0])/len(sizes), sizes[int(c[0])%len(sizes)])
				b := sized(int(c[1])/len(sizes), sizes[int(c[1])%len(sizes)])
				reusePair(t, a, b, false)
			}, Show: func(c []byte) string {
				return fmt.Sprintf("%s %d then %s %d", kinds[int(c[0])/len(sizes)], sizes[int(c[0])%len(sizes)], kinds[int(c[1])/len(sizes)], sizes[int(c[1])%len(sizes)])
			}},
		leavesFamily(tr),
		{Name: "rounds", Rule: "all sequences of 6 documents from 5 texts of different layout with a reset between some of them",
			Enum: func(emit func([]byte) bool) {
				for x := 0; x < 15625; x++ {
					for mask := 0; mask < 32; mask += tier(tr, 5, 1) {
						if !emit([]byte{byte(x >> 8), byte(x), byte(mask)}) {
							return
						}
					}
				}
			}, Check: func(t *core.T, c []byte) {
				d := &njson.Document{}
				w := newWorld(d, &njson.Document{})
				w.quiet = true
				x := int(c[0])<<8 | int(c[1])
				for i := 0; i < 6; i++ {
					w.parse(0, "P", reuseTexts[[]int{0, 1, 5, 6, 3}[x%5]])
					x /= 5
					t.Steps(1)
					if i < 5 && c[2]>>i&1 == 1 {
						w.reset(0)
						w.h = w.h[:0]
					}
				}
				w.verify(t)
			}},
	}
}

var leafDirt = []string{`[1,[2,3],{"a":4}]`, `{"a":{"b":[1,2,3,4,5,6,7,8,9]},"c":"x"}`, `[[[[]]],{}]`, `{"a":1,"b":2,"c":3,"d":4,"e":{"f":5,"g":[6]}}`, `{"a":{"a":{"a":{"a":1}}},"c":{"c":[{"a":[]}]}}`, `[1,2,3,4,5,6,7,8,9,10,11,12,13]`}
var leafLive = []string{`{"a":1,"b":{"a":2,"c":3},"c":[{"a":4}]}`, `[{"a":1},{"c":{"a":1}},2]`, `{"a":{"a":{"a":{"a":1,"c":2}}}}`, `[[1,{"a":2}],[3,[4]],5]`}

type leafMaker struct {
	name string
	f    func(w *world)
}

// leafMakers make a value of each kind in every way there is.
func leafMakers() (out []leafMaker) {
	built := func(name string, f func(d *njson.Document) njson.Node, kind byte, raw string) {
		out = append(out, leafMaker{name, func(w *world) {
			n, m := f(w.docs[0]), &mnode{kind: kind, raw: raw}
			w.add("S", n, w.created(0, m))
		}})
	}
	built("Null()", (*njson.Document).Null, model.Null, "null")
	built("False()", (*njson.Document).False, model.Bool, "false")
	built("True()", (*njson.Document).True, model.Bool, "true")
	built("TextRaw(r)", func(d *njson.Document) njson.Node { return d.TextRaw("r") }, model.String, "r")
	built("Text(s)", func(d *njson.Document) njson.Node { return d.Text("s") }, model.String, "s")
	built("TextHTML(h)", func(d *njson.Document) njson.Node { return d.TextHTML("h") }, model.String, "h")
	built("Number(5)", func(d *njson.Document) njson.Node { return d.Number(5) }, model.Number, "5")
	built("Array()", (*njson.Document).Array, model.Array, "")
	built("Object()", (*njson.Document).Object, model.Object, "")
	for _, s := range []string{"null", "true", "7", `"p"`, "[]", "{}"} {
		s := s
		out = append(out, leafMaker{"parse " + s, func(w *world) { w.parse(0, "S", s) }})
	}
	for k := range scalarSets {
		for _, s := range []string{`{"a":{"a":1},"c":[{"a":2}]}`, `[{"a":1},[{"c":2}]]`} {
			k, s := k, s
			out = append(out, leafMaker{s + "." + scalarSets[k].name, func(w *world) {
				r := w.parse(0, "S", s)
				if s[0] == '{' {
					w.sub(r, "a")
					w.sub(r, "c")
				} else {
					w.sub(r, 0)
					w.sub(r, 1)
				}
				w.scalar(r, k)
			}})
		}
	}
	return
}

func leavesFamily(tr string) core.Family {
	makers := leafMakers()
	fills := tier(tr, 4, 9)
	build := func(c []byte, quiet bool) *world {
		w := newWorld(&njson.Document{}, &njson.Document{})
		w.quiet = quiet
		d := w.docs[0]
		d.Parse(leafDirt[c[0]])
		d.Reset()
		if c[3]&1 == 1 {
			w.parse(0, "L", leafLive[c[3]>>1])
		}
		for i := 0; i < int(c[1]); i++ {
			w.build(0, "F", "true")
			w.h = w.h[:len(w.h)-1]
		}
		makers[c[2]].f(w)
		if c[3]&1 == 0 {
			w.parse(0, "L", leafLive[c[3]>>1])
		}
		w.logf("%s in a document that held %s, with %s", makers[c[2]].name, leafDirt[c[0]], leafLive[c[3]>>1])
		return w
	}
	ops := map[[2]byte][]op{}
	for m := range makers {
		for l := 0; l < 2*len(leafLive); l++ {
			ops[[2]byte{byte(m), byte(l)}] = editOps(build([]byte{0, 0, byte(m), byte(l)}, true), []string{"a", "c"}, true)
		}
	}
	run := func(c []byte, quiet bool) *world {
		w := build(c, quiet)
		ops[[2]byte{c[2], c[3]}][binary.BigEndian.Uint16(c[4:])].f(w)
		return w
	}
	return core.Family{Name: "leaves", Rule: fmt.Sprintf("a value made in every of %d ways (constructors, parses, containers turned into scalars) at each of %d places of a document that held one of %d others before, every one of the edits through every handle", len(makers), fills, len(leafDirt)),
		Enum: func(emit func([]byte) bool) {
			for d := range leafDirt {
				for f := 0; f < fills; f++ {
					for m := range makers {
						for l := 0; l < 2*len(leafLive); l++ {
							for o := range ops[[2]byte{byte(m), byte(l)}] {
								if !emit([]byte{byte(d), byte(f), byte(m), byte(l), byte(o >> 8), byte(o)}) {
									return
								}
							}
						}
					}
				}
			}
		}, Check: func(t *core.T, c []byte) {
			w := run(c, true)
			t.Steps(1)
			defer func() {
				if e := recover(); e != nil {
					w2 := run(c, false)
					w2.verify(t)
					panic(e)
				}
			}()
			w.verify(t)
		}, Show: func(c []byte) string {
			return fmt.Sprintf("%s in a document that held %s, with %s: %s", makers[c[2]].name, leafDirt[c[0]], leafLive[c[3]>>1], ops[[2]byte{c[2], c[3]}][binary.BigEndian.Uint16(c[4:])].name)
		}}
}

func seqS(n int, f func(int) string) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return
}

var shapeCache = map[int][]string{}

func shapeList(n int) []string {
	if s, ok := shapeCache[n]; ok {
		return s
	}
	var out []string
	treeDocs(n, []string{`"v"`}, []string{"k"}, func(s string) bool { out = append(out, s); return true })
	shapeCache[n] = out
	return out
}

// reusePair checks B's tree in a document that held A before.
func reusePair(t *core.T, a, b string, cuts bool) {
	vb, _, _ := model.Parse(b)
	va, _, _ := model.Parse(a)
	check := func(what string, d *njson.Document) {
		n, rest, err := d.Parse(b)
		t.Runs(1)
		t.Steps(1)
		if err != nil || rest != "" {
			t.Failf("%s: parsing %s gives %v, rest %q", what, clip(b), err, rest)
		}
		if x := diffNode(n, vb, false); x != "" {
			t.Failf("%s: parsing %s gives a different tree: %s", what, clip(b), x)
		}
		mustJSON(t, n, []byte(b), what)
		if len(b) < 40 && strings.HasPrefix(what, "after "+clip(a)) {
			reuseProbe(t, d, n, b, what)
		}
	}
	var d njson.Document
	na, _, err := d.Parse(a)
	if err != nil {
		t.Failf("parse %s: %v", a, err)
	}
	check("next to "+clip(a), &d)
	if x := diffNode(na, va, false); x != "" {
		t.Failf("parsing %s changes the earlier %s: %s", clip(b), clip(a), x)
	}
	d.Reset()
	check("after "+clip(a), &d)
	// grow what is there now, then once more
	n := d.Root()
	x := d.Array()
	y := d.Object()
	y.Set("n", d.Number(1))
	x.Append(y, n, d.Text("t"))
	want := `[{"n":1},` + b + `,"t"]`
	mustJSON(t, x, []byte(want), "built after "+clip(a)+" and "+clip(b))
	mustJSON(t, n, []byte(b), "root after building")
	d.Reset()
	na, _, _ = d.Parse(a)
	if x := diffNode(na, va, false); x != "" {
		t.Failf("third round: %s parsed after %s: %s", clip(a), clip(b), x)
	}
	if len(a) > 80 {
		d.Reset()
		d.Parse(a[:len(a)-1])
		check("after cut "+clip(a), &d)
		d.Reset()
		d.Parse(a[:len(a)/2])
		d.Reset()
		check("after half "+clip(a), &d)
		return
	}
	if !cuts {
		return
	}
	for i := 1; i < len(a); i++ {
		d.Reset()
		d.Parse(a[:i])
		check(fmt.Sprintf("on top of the failed parse of %q", a[:i]), &d)
		d.Reset()
		d.Parse(a[:i])
		d.Reset()
		check(fmt.Sprintf("after the failed parse of %q and reset", a[:i]), &d)
	}
}

// reuseProbe inserts every part of n elsewhere and overwrites that copy: n must not notice.
func reuseProbe(t *core.T, d *njson.Document, n njson.Node, b, what string) {
	var all []njson.Node
	var walk func(x njson.Node)
	walk = func(x njson.Node) {
		for it := x.Values(); it.Next(); {
			c := it.Value()
			all = append(all, c)
			walk(c)
		}
	}
	walk(n)
	for i, x := range all {
		h := d.Array()
		h.Append(x)
		c := h.Index(0)
		if i%2 == 0 {
			c.SetInt(int64(i))
		} else {
			c.Append(d.Null())
			c.Set("k", d.Null())
			c.SetTrue()
		}
		t.Steps(1)
	}
	if len(all) > 0 {
		mustJSON(t, n, []byte(b), what+", its parts inserted elsewhere and overwritten there")
	}
}

// ---------------------------------------------------------------- C05

// inert fails unless n behaves as no value. gone: its document was reset.
func inert(t *core.T, n njson.Node, gone bool, what string) {
	if ty := n.Type(); ty != njson.TypeInvalid {
		t.Failf("%s: type %v", what, ty)
	}
	if raw := n.Raw(); raw != "" {
		t.Failf("%s: text %q", what, raw)
	}
	if s := n.Unescaped(); s != "" {
		t.Failf("%s: unescaped text %q", what, s)
	}
	if s, ty := n.Data(); s != "" || ty != njson.TypeInvalid {
		t.Failf("%s: data %q %v", what, s, ty)
	}
	if gone && n.Document() != nil {
		t.Failf("%s: has a document", what)
	}
	if f, ok := n.ToFloat(); ok {
		t.Failf("%s: converts to float %v", what, f)
	}
	if f, ok := n.ToInt(); ok {
		t.Failf("%s: converts to int %v", what, f)
	}
	if f, ok := n.ToUint(); ok {
		t.Failf("%s: converts to uint %v", what, f)
	}
	if f, ok := n.ToBool(); ok {
		t.Failf("%s: converts to bool %v", what, f)
	}
	if x, ok := n.ToInterface(); ok || x != nil {
		t.Failf("%s: converts to %v", what, x)
	}
	it := n.Values()
	inertIter(t, &it, what)
	for _, k := range []string{"", "a", "k", "b"} {
		if ty := n.Get(k).Type(); ty != njson.TypeInvalid {
			t.Failf("%s: Get(%q) has type %v", what, k, ty)
		}
	}
	for _, i := range []int{-1, 0, 1, 2} {
		if ty := n.Index(i).Type(); ty != njson.TypeInvalid {
			t.Failf("%s: Index(%d) has type %v", what, i, ty)
		}
	}
	for _, p := range [][]string{nil, {}, {"a"}, {"0"}, {"a", "b"}, {""}, {"0", "a", "1"}} {
		if ty := n.Lookup(p...).Type(); ty != njson.TypeInvalid {
			t.Failf("%s: Lookup(%q) has type %v", what, p, ty)
		}
	}
	dst := []byte("keep")
	if b, err := n.AppendJSON(dst[:4:4]); err == nil || (b != nil && string(b) != "keep") {
		t.Failf("%s: serialises as %q, %v", what, b, err)
	}
	var buf bytes.Buffer
	if k, err := n.PrintJSON(&buf); err == nil || k != 0 || buf.Len() != 0 {
		t.Failf("%s: prints %q, %d, %v", what, buf.String(), k, err)
	}
	called := ""
	if err := n.WrapUnmarshalJSON(unmarshalFunc(func(b []byte) error { called = string(b); return nil })); err == nil || called != "" {
		t.Failf("%s: unmarshals JSON %q, %v", what, called, err)
	}
	if err := n.WrapUnmarshalText(textFunc(func(b []byte) error { called = string(b) + "!"; return nil })); err == nil || called != "" {
		t.Failf("%s: unmarshals text %q, %v", what, called, err)
	}
	s, x, i := "s", interface{}(5), 7
	m, a := map[string]interface{}{"q": 1}, []int{1}
	for _, p := range []interface{}{&s, &x, &i, &m, &a} {
		if err := unjson.UnmarshalFromNode(n, p); err == nil {
			t.Failf("%s: decodes into %T", what, p)
		}
	}
	if err := n.TypeError(njson.TypeString); err == nil || !strings.Contains(err.Error(), njson.TypeInvalid.String()) {
		t.Failf("%s: type error %v", what, err)
	}
	if gone {
		for id := uint(0); id < 6; id++ {
			if ty := n.With(id).Type(); ty != njson.TypeInvalid {
				t.Failf("%s: With(%d) has type %v", what, id, ty)
			}
		}
	}
}

func inertIter(t *core.T, it *njson.IterV, what string) {
	if it.Len() != 0 {
		t.Failf("%s: has %d members", what, it.Len())
	}
	for r := 0; r < 2; r++ {
		if it.Next() {
			t.Failf("%s: iterates to key %q id %d", what, it.Key(), it.ID())
		}
		if ty := it.Value().Type(); ty != njson.TypeInvalid {
			t.Failf("%s: iterator value of type %v", what, ty)
		}
		it.Reset()
	}
}

type unmarshalFunc func(b []byte) error

func (f unmarshalFunc) UnmarshalJSON(b []byte) error { return f(b) }

type textFunc func(b []byte) error

func (f textFunc) UnmarshalText(b []byte) error { return f(b) }

var errCB = errors.New("callback error")

// staleWrites are the mutating operations through an inert handle x, with l a live container.
var staleWrites = []struct {
	name string
	f    func(x, arr, obj njson.Node)
}{
	{"x.Set(k,obj)", func(x, a, o njson.Node) { x.Set("k", o) }},
	{"x.Set('',arr)", func(x, a, o njson.Node) { x.Set("", a) }},
	{"x.Append(arr)", func(x, a, o njson.Node) { x.Append(a) }},
	{"x.Append(x)", func(x, a, o njson.Node) { x.Append(x) }},
	{"x.Append()", func(x, a, o njson.Node) { x.Append() }},
	{"x.Append(o,x,a)", func(x, a, o njson.Node) { x.Append(o, x, a) }},
	{"x.Replace(0,arr)", func(x, a, o njson.Node) { x.Replace(0, a) }},
	{"x.Slice(0,1)", func(x, a, o njson.Node) { x.Slice(0, 1) }},
	{"x.Remove(0)", func(x, a, o njson.Node) { x.Remove(0) }},
	{"x.Strip(a)", func(x, a, o njson.Node) { x.Strip("a") }},
	{"x.Del(a)", func(x, a, o njson.Node) { x.Del("a") }},
	{"x.SetInt", func(x, a, o njson.Node) { x.SetInt(-99) }},
	{"x.SetUint", func(x, a, o njson.Node) { x.SetUint(99) }},
	{"x.SetFloat", func(x, a, o njson.Node) { x.SetFloat(9.9) }},
	{"x.SetString", func(x, a, o njson.Node) { x.SetString("zz") }},
	{"x.SetStringHTML", func(x, a, o njson.Node) { x.SetStringHTML("zz") }},
	{"x.SetStringRaw", func(x, a, o njson.Node) { x.SetStringRaw("zz") }},
	{"x.SetFalse", func(x, a, o njson.Node) { x.SetFalse() }},
	{"x.SetTrue", func(x, a, o njson.Node) { x.SetTrue() }},
	{"x.SetNull", func(x, a, o njson.Node) { x.SetNull() }},
	{"arr.Append(x)", func(x, a, o njson.Node) { a.Append(x) }},
	{"arr.Append(x,x)", func(x, a, o njson.Node) { a.Append(x, x) }},
	{"arr.Replace(0,x)", func(x, a, o njson.Node) { a.Replace(0, x) }},
	{"obj.Set(a,x)", func(x, a, o njson.Node) { o.Set("a", x) }},
	{"obj.Set(new,x)", func(x, a, o njson.Node) { o.Set("new", x) }},
	{"x.Get.Set", func(x, a, o njson.Node) { x.Get("a").SetInt(5); x.Index(0).Append(a); x.Lookup("a", "0").SetNull() }},
	{"reads", func(x, a, o njson.Node) {}},
}

var staleTexts = []string{`[1,[2,3],{"a":[4]}]`, `{"a":1,"b":{"a":[2]},"c":[3]}`, `"s"`, `7`, `true`, `[]`, `{"k":{}}`}
var refillTexts = []string{``, `[1,[2,3],{"a":[4]}]`, `{"a":1,"b":{"a":[2]},"c":[3]}`, `[[5,6],{"a":"secret"},9,10,11,12,13]`, `"x"`, `!`}

const (
	resetOnce = iota
	resetTwice
	resetClose
	resetPool
	resetPoolGet
	numResets
)

func staleCheck(t *core.T, c []byte) {
	pre, how, refill, wr := staleTexts[c[0]], int(c[1]), refillTexts[c[2]], staleWrites[c[3]]
	var d njson.Document
	doc := &d
	root, _, _ := doc.Parse(pre)
	var hs []njson.Node
	var its []njson.IterV
	var walk func(n njson.Node)
	walk = func(n njson.Node) {
		hs = append(hs, n, n.Get("nope"), n.Index(77))
		its = append(its, n.Values())
		it := n.Values()
		for it.Next() {
			its = append(its, it)
			walk(it.Value())
		}
		its = append(its, it)
	}
	walk(root)
	hs = append(hs, doc.Root(), doc.Node(1), doc.Node(40), doc.Text("free"), doc.Array(), doc.Null(), doc.Node(^uint(0)))
	switch how {
	case resetOnce:
		doc.Reset()
	case resetTwice:
		doc.Reset()
		doc.Parse(`[0]`)
		doc.Reset()
	case resetClose:
		// A document that is closed belongs to the default pool: other workers may use it, so only its own
		// handles are looked at.
		var local njson.Document
		n, _, _ := local.Parse(pre)
		local.Close()
		inert(t, n, true, "after Close")
		return
	case resetPool, resetPoolGet:
		var p njson.Pool
		p.Put(doc)
		if how == resetPoolGet {
			doc = p.Get()
		}
	}
	var live njson.Node
	var other njson.Document
	or, _, _ := other.Parse(`{"a":[1],"b":{}}`)
	_ = or
	want := ""
	switch refill {
	case "":
	case "!":
		doc.Parse(`[1,{"a":[2,`)
	default:
		live, _, _ = doc.Parse(refill)
		want = refill
	}
	if want != "" {
		want = strings.ReplaceAll(want, " ", "")
	}
	// free-standing containers of the refilled document
	arr, obj := doc.Array(), doc.Object()
	arr.Append(doc.Number(1))
	obj.Set("a", doc.True())
	isOld := func(k int) bool { return how != resetPoolGet || true }
	intact := func(what string) {
		if want != "" {
			mustJSON(t, live, []byte(want), what)
		}
		mustJSON(t, arr, []byte("[1]"), what)
		mustJSON(t, obj, []byte(`{"a":true}`), what)
		b, err := other.AppendJSON(nil)
		if err != nil || string(b) != `{"a":[1],"b":{}}` {
			t.Failf("%s: the other document became %s", what, b)
		}
	}
	for k, h := range hs {
		what := fmt.Sprintf("handle %d of %s after reset kind %d, refilled with %q", k, pre, how, refill)
		t.Steps(1)
		t.Runs(1)
		wr.f(h, arr, obj)
		wr.f(h, other.Root().Get("a"), other.Root().Get("b"))
		inert(t, h, isOld(k), what)
		intact(what + ", " + wr.name)
	}
	for k := range its {
		it := its[k]
		what := fmt.Sprintf("iterator %d of %s after reset kind %d, refilled with %q", k, pre, how, refill)
		if ty := it.Value().Type(); ty != njson.TypeInvalid {
			t.Failf("%s: value of type %v", what, ty)
		}
		wr.f(it.Value(), arr, obj)
		inertIter(t, &it, what)
		intact(what + ", " + wr.name)
	}
	// hidden effects would show when the document grows
	arr.Append(doc.Object(), doc.Array())
	obj.Set("z", arr)
	mustJSON(t, obj, []byte(`{"a":true,"z":[1,{},[]]}`), "growing afterwards")
	if want != "" {
		mustJSON(t, live, []byte(want), "growing afterwards")
	}
	if n, _, err := doc.Parse(`[[1],{"q":[2]}]`); err != nil {
		t.Failf("parsing afterwards: %v", err)
	} else {
		mustJSON(t, n, []byte(`[[1],{"q":[2]}]`), "parsing afterwards")
	}
	t.State(fmt.Sprint(c))
}

// never are handles that never referred to a value.
func neverCheck(t *core.T, c []byte) {
	wr := staleWrites[c[0]]
	text := append([]string{""}, staleTexts...)[c[1]]
	var d, other njson.Document
	var root njson.Node
	if text != "" {
		root, _, _ = d.Parse(text)
	}
	arr, obj := other.Array(), other.Object()
	arr.Append(other.Number(1))
	obj.Set("a", other.True())
	it0 := root.Values()
	done := root.Values()
	for done.Next() {
	}
	closed := root.Values()
	closed.Close()
	reset := root.Values()
	reset.Next()
	reset.Reset()
	var zero njson.IterV
	var nildoc *njson.Document
	_ = nildoc
	type hh struct {
		n    njson.Node
		gone bool
		name string
	}
	hs := []hh{{njson.Node{}, true, "zero handle"}, {njson.Node{}.With(0), true, "zero handle.With(0)"}, {d.Node(1 << 40), false, "Node(2^40)"}, {d.Node(^uint(0)), false, "Node(max)"},
		{root.Get("missing"), false, "missing key"}, {root.Index(-1), false, "Index(-1)"}, {root.Index(99), false, "Index(99)"}, {root.Lookup("x", "y"), false, "Lookup(x,y)"},
		{it0.Value(), false, "iterator before Next"}, {done.Value(), false, "finished iterator"}, {closed.Value(), false, "closed iterator"}, {reset.Value(), false, "rewound iterator"}, {zero.Value(), true, "zero iterator"},
		{(&njson.Document{}).Root(), false, "root of an empty document"}}
	for id := uint(12); id < 20; id++ {
		hs = append(hs, hh{d.Node(id), false, fmt.Sprintf("Node(%d)", id)})
	}
	for _, h := range hs {
		what := fmt.Sprintf("%s (%s) on %s", h.name, wr.name, text)
		if h.name == "missing key" && text == "" || strings.HasPrefix(h.name, "Index") && text == "" {
			h.gone = true
		}
		inert(t, h.n, h.gone && h.n.Document() == nil, what)
		before := ""
		if text != "" {
			before = text
		}
		wr.f(h.n, arr, obj)
		inert(t, h.n, false, what)
		t.Steps(1)
		t.Runs(1)
		if text != "" {
			mustJSON(t, root, []byte(before), what)
			// as operand in the same document
			b, _ := d.AppendJSON(nil)
			if string(b) != text {
				t.Failf("%s: document became %s", what, b)
			}
		} else if b, err := d.AppendJSON(nil); err == nil {
			t.Failf("%s: empty document became %s", what, b)
		}
		mustJSON(t, arr, []byte("[1]"), what)
		mustJSON(t, obj, []byte(`{"a":true}`), what)
	}
	t.State(fmt.Sprint(c))
}

// scStale: handles of earlier contents live next to those of the current one.
func scStale(w *world) {
	r := w.parse(0, "R", `[[1,2],{"a":3}]`)
	w.sub(r, 0)
	w.sub(r, 1)
	w.build(0, "F", "[]")
	w.parse(1, "S", `{"a":[7],"q":{}}`)
	w.add("X", njson.Node{}, nil)
	w.add("Y", njson.Node{}, nil)
}

func scStaleOps(w *world) (out []op) {
	const R, R0, R1, F, S, X, Y = 0, 1, 2, 3, 4, 5, 6
	add := func(name string, f func(w *world)) { out = append(out, op{name, f}) }
	add("doc0.Reset", func(w *world) { w.reset(0) })
	add("doc1.Reset", func(w *world) { w.reset(1) })
	add("doc0 pooled", func(w *world) { w.pool.Put(w.docs[0]); w.docs[0] = w.pool.Get(); w.forget(0) })
	add("X=doc0.Parse", func(w *world) { w.reparse(X, 0, `{"a":[5,{"a":6}],"b":[]}`) })
	add("X=doc0.Parse2", func(w *world) { w.reparse(X, 0, `[[[8]],9]`) })
	add("Y=doc0.new", func(w *world) { w.rebuild(Y, 0, "{}") })
	add("S=doc1.Parse", func(w *world) { w.reparse(S, 1, `[{"a":1}]`) })
	add("Y=X.a", func(w *world) { w.nav(Y, X, "a") })
	add("X.Append(R0)", func(w *world) { w.appendOp(X, R0) })
	add("X.Set(a,F)", func(w *world) { w.set(X, F, "a") })
	add("X.Set(z,R)", func(w *world) { w.set(X, R, "z") })
	add("R.Append(X)", func(w *world) { w.appendOp(R, X) })
	add("R1.Set(a,X)", func(w *world) { w.set(R1, X, "a") })
	add("R1.Set(n,S)", func(w *world) { w.set(R1, S, "n") })
	add("F.Append(S)", func(w *world) { w.appendOp(F, S) })
	add("S.Append(F)", func(w *world) { w.appendOp(S, F) })
	add("S.Set(a,R1)", func(w *world) { w.set(S, R1, "a") })
	add("Y.Append(R,X,F)", func(w *world) { w.appendOp(Y, R, X, F) })
	add("Y.Set(y,R0)", func(w *world) { w.set(Y, R0, "y") })
	add("R0.SetInt", func(w *world) { w.scalar(R0, 0) })
	add("R1.Del(a)", func(w *world) { w.del(R1, "a") })
	add("R.Slice", func(w *world) { w.slice(R, 0, 1) })
	add("F.SetNull", func(w *world) { w.scalar(F, 2) })
	return
}

func c05(tr string) []core.Family {
	return []core.Family{
		{Name: "matrix", Rule: fmt.Sprintf("7 documents x 5 ways of resetting x 6 refills x %d operations, through every handle and iterator taken before the reset", len(staleWrites)),
			Enum: func(emit func([]byte) bool) {
				for a := range staleTexts {
					for h := 0; h < numResets; h++ {
						for r := range refillTexts {
							for w := range staleWrites {
								if !emit([]byte{byte(a), byte(h), byte(r), byte(w)}) {
									return
								}
							}
						}
					}
				}
			}, Check: staleCheck, Show: func(c []byte) string {
				return fmt.Sprintf("%s, reset kind %d, refill %q, %s", staleTexts[c[0]], c[1], refillTexts[c[2]], staleWrites[c[3]].name)
			}},
		{Name: "never", Rule: "every operation through handles that never referred to a value (zero, out of range, missing, iterators off their values), 8 documents",
			Enum: func(emit func([]byte) bool) {
				for w := range staleWrites {
					for a := 0; a <= len(staleTexts); a++ {
						if !emit([]byte{byte(w), byte(a)}) {
							return
						}
					}
				}
			}, Check: neverCheck, Show: func(c []byte) string { return fmt.Sprintf("%s on document %d", staleWrites[c[0]].name, c[1]) }},
		histFamily("histories", "all histories over 23 operations (resets, pool trips, refills, edits through old and new handles, insertions of old handles into new values and back) up to the depth",
			[]scenario{{"stale", scStale, scStaleOps}}, func(int) int { return tier(tr, 4, 5) }, freshDocs),
		{Name: "wrap", Timeout: 5 * time.Minute, Rule: fmt.Sprintf("handles of one round are dead after each of %d further resets (beyond a revision of 8, 16 and 20 bits)", tier(tr, 1<<21, 1<<26)),
			Enum: func(emit func([]byte) bool) {
				for i := 0; i < 4; i++ {
					emit([]byte{byte(i)})
				}
			}, Check: func(t *core.T, c []byte) {
				d := new(njson.Document)
				for i := byte(0); i < c[0]; i++ {
					d.Parse("[1,2]")
					d.Reset()
				}
				r, _, _ := d.Parse(`{"a":[1]}`)
				el := r.Get("a").Index(0)
				free := d.Text("x")
				for i := 0; i < tier(tr, 1<<21, 1<<26); i++ {
					d.Reset()
					if c[0]&1 != 0 {
						d.Null()
						d.Number(2)
					} else if _, _, err := d.Parse(`{"b":["c"]}`); err != nil {
						t.Failf("reset %d: %v", i+1, err)
						return
					}
					if r.Type() != njson.TypeInvalid || el.Type() != njson.TypeInvalid || free.Type() != njson.TypeInvalid || el.Raw() != "" || r.Document() != nil {
						t.Failf("reset %d: an old handle is %v, %v, %v", i+1, r.Type(), el.Type(), free.Type())
						return
					}
				}
				t.Steps(tier(tr, 1<<21, 1<<26))
				inert(t, r, true, "old handle")
			}, Show: func(c []byte) string { return fmt.Sprintf("after %d resets, refilled in way %d", c[0], c[0]&1) }},
		{Name: "cycles", Rule: "handles taken in each of N rounds of reset and refill are inert in all later rounds",
			Enum: func(emit func([]byte) bool) {
				for n := 1; n <= tier(tr, 40, 300); n++ {
					emit([]byte(fmt.Sprint(n)))
				}
			}, Check: func(t *core.T, c []byte) {
				n := 0
				fmt.Sscan(string(c), &n)
				var d njson.Document
				var old []njson.Node
				for i := 0; i < n; i++ {
					d.Reset()
					t.Steps(1)
					r, _, _ := d.Parse(fmt.Sprintf(`{"a":[%d],"b":{"c":"%d"}}`, i, i))
					for _, o := range old {
						if o.Type() != njson.TypeInvalid || o.Raw() != "" || o.Document() != nil {
							t.Failf("round %d: an old handle reads %v %q", i, o.Type(), o.Raw())
						}
						o.SetString("gone")
						o.Append(r)
						r.Set("a", o)
					}
					mustJSON(t, r, []byte(fmt.Sprintf(`{"a":[%d],"b":{"c":"%d"}}`, i, i)), "current round")
					old = append(old, r, r.Get("a"), r.Get("b").Get("c"), d.Node(30))
				}
				for _, o := range old[:len(old)-4] {
					inert(t, o, true, "old handle")
				}
			}},
	}
}
