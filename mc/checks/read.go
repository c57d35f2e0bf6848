package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"sync"

	"github.com/alxarch/njson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C08", Level: "model_checking", Families: c08, Quick: 200, Thorough: 800,
		Assumptions: []string{"Path segments that name an array element in another than its plain decimal form (leading zeros, sign) are unspecified.",
			"Reads contain no synchronisation besides the buffer pool, so two of them that are free of data races give the same results under every interleaving; the race detector decides data-race freedom of a pair of operations from one execution of it."}})
}

// modelLookup follows a path; ok is false when a segment is unspecified.
func modelLookup(v *model.Val, path []string) (*model.Val, bool) {
	for _, k := range path {
		switch v.Kind {
		case model.Object:
			var x *model.Val
			for i, key := range v.Keys {
				if key == k {
					x = v.Vals[i]
					break
				}
			}
			if x == nil {
				return nil, true
			}
			v = x
		case model.Array:
			i, err := strconv.Atoi(k)
			if err != nil {
				return nil, strings.Trim(k, "0123456789") != "" || k == ""
			}
			if strconv.Itoa(i) != k {
				return nil, false
			}
			if i < 0 || i >= len(v.Vals) {
				return nil, true
			}
			v = v.Vals[i]
		default:
			return nil, true
		}
	}
	return v, true
}

func sameNode(t *core.T, what string, n njson.Node, v *model.Val) {
	if v == nil {
		if n.Type() != njson.TypeInvalid || n.Raw() != "" {
			t.Failf("%s: found %v %q, nothing is there", what, n.Type(), n.Raw())
		}
		return
	}
	if x := diffNode(n, v, false); x != "" {
		t.Failf("%s: %s", what, x)
	}
}

// readAll compares every way of reading n with v.
func readAll(t *core.T, d *njson.Document, n njson.Node, v *model.Val, paths [][]string, keys []string, where string) {
	t.Steps(1)
	if n.Type() != typeOf(v.Kind) || n.Document() != d {
		t.Failf("%s: type %v, want %v", where, n.Type(), typeOf(v.Kind))
	}
	if m := d.Node(n.ID()); m != n || n.With(n.ID()) != n {
		t.Failf("%s: handle by id differs", where)
	}
	raw, ty := n.Data()
	scalar := v.Kind != model.Object && v.Kind != model.Array
	if ty != n.Type() || raw != n.Raw() || (scalar && raw != v.Raw) {
		t.Failf("%s: data %q %v, text %q, want %q", where, raw, ty, n.Raw(), v.Raw)
	}
	want := ""
	if v.Kind == model.String {
		want = model.Unescape(v.Raw)
	}
	if got := n.Unescaped(); scalar && (v.Kind == model.String || got != "") && got != want {
		// other scalars may give their plain text
		if v.Kind == model.String || got != v.Raw {
			t.Failf("%s: unescaped %q, want %q", where, got, want)
		}
	}
	b, ok := n.ToBool()
	if ok != (v.Kind == model.Bool) || (ok && b != (v.Raw == "true")) {
		t.Failf("%s: bool %v %v of %q", where, b, ok, v.Raw)
	}
	f, ok := n.ToFloat()
	num := floatWant(v.Raw)
	if v.Kind == model.String {
		num = floatWant(v.Raw)
	}
	if !scalar || v.Kind == model.Bool || v.Kind == model.Null {
		if ok {
			t.Failf("%s: converts to %v", where, f)
		}
	} else if v.Kind == model.Number && (ok != (num == num) || (ok && f != num)) {
		t.Failf("%s: float %v %v of %q", where, f, ok, v.Raw)
	}
	x, ok := n.ToInterface()
	wx, wok := ifaceOf(v)
	if ok != wok || (ok && !sameGeneric(x, wx)) {
		t.Failf("%s: converts to %#v %v, want %#v %v", where, x, ok, wx, wok)
	}
	js, err := n.AppendJSON(nil)
	if err != nil || string(js) != v.Compact() {
		t.Failf("%s: serialises as %s, %v, want %s", where, js, err, v.Compact())
	}
	var buf bytes.Buffer
	if k, err := n.PrintJSON(&buf); err != nil || k != buf.Len() || buf.String() != string(js) {
		t.Failf("%s: prints %q (%d, %v), serialises as %q", where, buf.String(), k, err, js)
	}
	for _, k := range keys {
		var w *model.Val
		if v.Kind == model.Object {
			w, _ = modelLookup(v, []string{k})
		}
		sameNode(t, fmt.Sprintf("%s.Get(%q)", where, k), n.Get(k), w)
	}
	for i := -2; i <= len(v.Vals)+2; i++ {
		var w *model.Val
		if v.Kind == model.Array && i >= 0 && i < len(v.Vals) {
			w = v.Vals[i]
		}
		sameNode(t, fmt.Sprintf("%s.Index(%d)", where, i), n.Index(i), w)
	}
	for _, i := range []int{1 << 40, -1 << 62, 1 << 62, 1<<63 - 1, -1 << 63} {
		sameNode(t, fmt.Sprintf("%s.Index(%d)", where, i), n.Index(i), nil)
	}
	for _, p := range paths {
		if w, ok := modelLookup(v, p); ok {
			sameNode(t, fmt.Sprintf("%s.Lookup(%q)", where, p), n.Lookup(p...), w)
		}
	}
	t.Runs(len(keys) + len(paths) + len(v.Vals) + 8)
	readIter(t, n, v, where)
	for i, c := range v.Vals {
		it := n.Values()
		for j := 0; j <= i; j++ {
			it.Next()
		}
		m := it.Value()
		if v.Kind == model.Array {
			if m != n.Index(i) {
				t.Failf("%s: iterator and Index(%d) give different handles", where, i)
			}
			if m != n.Lookup(strconv.Itoa(i)) {
				t.Failf("%s: iterator and Lookup(%d) give different handles", where, i)
			}
		}
		readAll(t, d, m, c, paths, keys, fmt.Sprintf("%s[%d]", where, i))
	}
}

func readIter(t *core.T, n njson.Node, v *model.Val, where string) {
	size := len(v.Vals)
	it := n.Values()
	pass := func(upto int, what string) {
		if it.Index() != -1 {
			t.Failf("%s: %s: index %d before the first value", where, what, it.Index())
		}
		for i := 0; i < upto; i++ {
			if it.Len() != size {
				t.Failf("%s: %s: length %d, want %d", where, what, it.Len(), size)
			}
			next := it.Next()
			if next != (i < size) {
				t.Failf("%s: %s: Next gives %v at %d of %d", where, what, next, i, size)
			}
			if !next {
				if it.Value().Type() != njson.TypeInvalid || it.Index() != -2 || it.Key() != "" {
					t.Failf("%s: %s: finished iterator has index %d, key %q, value %v", where, what, it.Index(), it.Key(), it.Value().Type())
				}
				continue
			}
			if it.Index() != i {
				t.Failf("%s: %s: index %d, want %d", where, what, it.Index(), i)
			}
			if k := ""; true {
				if v.Kind == model.Object {
					k = v.Keys[i]
				}
				if it.Key() != k {
					t.Failf("%s: %s: key %q, want %q", where, what, it.Key(), k)
				}
			}
			if it.Value().ID() != it.ID() {
				t.Failf("%s: %s: id %d, value's id %d", where, what, it.ID(), it.Value().ID())
			}
			sameNode(t, where+" "+what, it.Value(), v.Vals[i])
		}
	}
	for stop := 0; stop <= size+2; stop++ {
		pass(stop, fmt.Sprintf("pass of %d", stop))
		// a copy goes its own way
		cp := it
		cp.Next()
		cp.Close()
		if cp.Len() != 0 || cp.Next() || cp.Value().Type() != njson.TypeInvalid {
			t.Failf("%s: closed iterator is not empty", where)
		}
		it.Reset()
		if it.Value().Type() != njson.TypeInvalid || it.Key() != "" {
			t.Failf("%s: rewound iterator has a value", where)
		}
	}
}

func allPaths(segs []string, n int) (out [][]string) {
	out = append(out, nil, []string{})
	last := [][]string{nil}
	for i := 0; i < n; i++ {
		var next [][]string
		for _, p := range last {
			for _, s := range segs {
				next = append(next, append(append([]string(nil), p...), s))
			}
		}
		out = append(out, next...)
		last = next
	}
	return
}

func readCheck(segs []string, depth int) func(t *core.T, c []byte) {
	paths := allPaths(segs, depth)
	return func(t *core.T, c []byte) {
		v, _, merr := model.Parse(string(c))
		var d njson.Document
		n, _, err := d.Parse(string(c))
		if merr != nil || err != nil {
			t.Failf("parse %q: %v", c, err)
		}
		t.State(v.Compact())
		readAll(t, &d, n, v, paths, segs, "root")
		// reading did not change it
		if x := diffNode(n, v, true); x != "" {
			t.Failf("reading changed %s: %s", c, x)
		}
		if b, err := d.AppendJSON(nil); err != nil || string(b) != v.Compact() {
			t.Failf("reading changed %s: %s", c, b)
		}
		if d.Root() != n {
			t.Failf("Root is not the parsed value")
		}
		sameNode(t, "Node(max)", d.Node(^uint(0)), nil)
	}
}

// ---------------------------------------------------------------- concurrent reads

type readOp struct {
	name string
	f    func(n njson.Node) string
}

var readOps = []readOp{
	{"AppendJSON", func(n njson.Node) string { b, e := n.AppendJSON(nil); return fmt.Sprint(string(b), e) }},
	{"Document.AppendJSON", func(n njson.Node) string { b, e := n.Document().AppendJSON(nil); return fmt.Sprint(string(b), e) }},
	{"PrintJSON", func(n njson.Node) string {
		var b bytes.Buffer
		k, e := n.PrintJSON(&b)
		return fmt.Sprint(b.String(), k, e)
	}},
	{"WrapUnmarshalJSON", func(n njson.Node) string {
		var s string
		e := n.WrapUnmarshalJSON(unmarshalFunc(func(b []byte) error { s = string(b); return nil }))
		return fmt.Sprint(s, e)
	}},
	{"WrapUnmarshalText", func(n njson.Node) string {
		s := ""
		for it := n.Values(); it.Next(); {
			s += fmt.Sprint(it.Value().WrapUnmarshalText(textFunc(func(b []byte) error { s += string(b); return nil })))
		}
		return s + fmt.Sprint(n.WrapUnmarshalText(textFunc(func(b []byte) error { s += string(b); return nil })))
	}},
	{"ToInterface", func(n njson.Node) string { x, ok := n.ToInterface(); return fmt.Sprint(x, ok) }},
	{"Type", func(n njson.Node) string { return fmt.Sprint(n.Type(), n.TypeError(njson.TypeNull)) }},
	{"Raw", func(n njson.Node) string { a, b := n.Data(); return fmt.Sprint(n.Raw(), a, b) }},
	{"Unescaped", func(n njson.Node) string {
		s := n.Unescaped()
		for it := n.Values(); it.Next(); {
			s += it.Value().Unescaped() + it.Key()
		}
		return s
	}},
	{"numbers", func(n njson.Node) string {
		s := ""
		conv := func(n njson.Node) {
			a, b := n.ToFloat()
			c, d := n.ToInt()
			e, f := n.ToUint()
			g, h := n.ToBool()
			s += fmt.Sprint(a, b, c, d, e, f, g, h)
		}
		conv(n)
		for it := n.Values(); it.Next(); {
			conv(it.Value())
		}
		return s
	}},
	{"Get", func(n njson.Node) string { return n.Get("a").Raw() + n.Get("").Raw() + n.Get("zz").Raw() }},
	{"Index", func(n njson.Node) string { return n.Index(0).Raw() + n.Index(1).Raw() + n.Index(9).Raw() }},
	{"Lookup", func(n njson.Node) string {
		return n.Lookup("a", "0").Raw() + n.Lookup("0", "a").Raw() + n.Lookup("1").Raw() + fmt.Sprint(n.Lookup().ID(), n.Lookup("zz").ID())
	}},
	{"iterate", func(n njson.Node) string {
		s := ""
		it := n.Values()
		for it.Next() {
			s += it.Key() + it.Value().Raw() + fmt.Sprint(it.Index(), it.ID(), it.Len())
		}
		it.Reset()
		it.Next()
		it.Close()
		return s
	}},
	{"deep", func(n njson.Node) string {
		var s string
		var rec func(n njson.Node)
		rec = func(n njson.Node) {
			s += n.Type().String() + n.Raw()
			for it := n.Values(); it.Next(); {
				s += it.Key()
				rec(it.Value())
			}
		}
		rec(n)
		return s
	}},
	{"Document", func(n njson.Node) string {
		d := n.Document()
		return fmt.Sprint(d.Root().Type(), d.Node(1).Type(), d.Node(n.ID()) == n, n.With(0).Raw())
	}},
	{"copied from", func(n njson.Node) string {
		var d njson.Document
		a, o := d.Array(), d.Object()
		a.Append(n, n)
		o.Set("x", n)
		x, _ := a.AppendJSON(nil)
		y, _ := o.AppendJSON(nil)
		return string(x) + string(y)
	}},
}

var raceDocs = []string{`[1,"x",[2,{"a":null}],{"a":[true],"":"\u0041"}]`, `{"a":[1,"b"],"":{"a":-1.5e3},"a":"dup","s":"a\nb"}`, `"text \u00e9"`, `42`, `"42"`, `true`, `null`, `[]`, `{}`, `[[[[1]]],{"a":{"a":{"a":"x"}}}]`}

// raceCheck runs two reads of one document at the same time under the race detector.
func raceCheck(t *core.T, c []byte) {
	i, j, text := int(c[0]), int(c[1]), raceDocs[c[2]]
	build := func() (njson.Node, *njson.Document) {
		d := &njson.Document{}
		switch c[3] {
		case 1: // recycled
			d.Parse(`[{"p":1,"q":[2,3]},[4,5,6],"old"]`)
			d.Reset()
		case 2: // edited
			n, _, _ := d.Parse(text)
			x := d.Array()
			x.Append(d.Text("e"))
			n.Set("a", x)
			n.Append(x, d.Number(1.5))
			n.Del("s")
			n.Remove(1)
			return n, d
		}
		n, _, _ := d.Parse(text)
		return n, d
	}
	n, d := build()
	m, _ := build()
	wi, wj := readOps[i].f(m), readOps[j].f(m)
	var wg sync.WaitGroup
	var gi, gj string
	start := make(chan bool)
	wg.Add(2)
	go func() { defer wg.Done(); <-start; gi = readOps[i].f(n) }()
	go func() { defer wg.Done(); <-start; gj = readOps[j].f(n) }()
	close(start)
	wg.Wait()
	t.Runs(2)
	t.Steps(2)
	t.State(gi + "|" + gj)
	if gi != wi || gj != wj {
		t.Failf("%s and %s of %s at the same time give %q and %q, one after the other %q and %q", readOps[i].name, readOps[j].name, text, gi, gj, wi, wj)
	}
	b, _ := d.AppendJSON(nil)
	mb, _ := m.Document().AppendJSON(nil)
	if string(b) != string(mb) {
		t.Failf("reading changed the document")
	}
}

func c08(tr string) []core.Family {
	segs := []string{"", "a", "0", "1", "2", "-1", "x", "a b"}
	return []core.Family{
		{Name: "trees", Rule: "every document with up to N nodes over 7 scalars, [] and {} and keys '', a, 0 (repeats included): every node by every path of up to 2 segments, every key, every index, iterators stopped at every place, conversions, serialisation",
			Enum: func(emit func([]byte) bool) {
				treeDocs(tier(tr, 4, 5), []string{`"a"`, `"\n"`, `-1`, `"1.5"`, "true", "false", "null"}, []string{"", "a", "0"}, emitS(emit))
			}, Check: readCheck(segs, 2)},
		{Name: "shapes", Rule: "every tree shape with up to N nodes over 1 scalar, [] and {} and 2 keys: every path of up to 3 segments",
			Enum: func(emit func([]byte) bool) {
				treeDocs(tier(tr, 5, 6), []string{`1`}, []string{"a", "1"}, emitS(emit))
			}, Check: readCheck([]string{"", "a", "0", "1", "-1"}, 3)},
		{Name: "wide", Rule: "arrays and objects of every size up to N: every index, every key, every decimal path segment, duplicates at every pair of places",
			Enum: func(emit func([]byte) bool) {
				for n := 0; n <= tier(tr, 40, 130); n++ {
					for _, k := range []string{"array", "object"} {
						if !emit([]byte(fmt.Sprintf("%s %d", k, n))) {
							return
						}
					}
				}
				for _, n := range around(6, tier(tr, 8, 10)) {
					for _, k := range []string{"array", "object"} {
						if !emit([]byte(fmt.Sprintf("%s %d", k, n))) {
							return
						}
					}
				}
				for n := 1; n <= tier(tr, 12, 24); n++ {
					for i := 0; i < n; i++ {
						for j := i; j < n; j++ {
							if !emit([]byte(fmt.Sprintf("dup %d %d %d", n, i, j))) {
								return
							}
						}
					}
				}
			}, Check: wideRead},
		{Name: "keys", Rule: "reading by name and by path in objects that hold two nearly equal keys: all lengths up to the bound (and around 64, 128, 256), all positions, all kinds of difference",
			Enum: keyPairEnum(tier(tr, 40, 90)), Check: keyRead},
		{Name: "repeated", Rule: "objects of sizes around powers of two of which two members have one name, at the ends, in the middle and around powers of two: reading, converting, setting", Enum: dupEnum(tr), Check: dupCheck},
		{Name: "race", Variant: "race", Rule: fmt.Sprintf("every pair of %d read operations on %d documents (fresh, recycled, edited) in two goroutines under the race detector, results compared with reading alone", len(readOps), len(raceDocs)),
			Enum: func(emit func([]byte) bool) {
				for i := range readOps {
					for j := i; j < len(readOps); j++ {
						for k := range raceDocs {
							for v := 0; v < 3; v++ {
								if !emit([]byte{byte(i), byte(j), byte(k), byte(v)}) {
									return
								}
							}
						}
					}
				}
			}, Check: raceCheck, Show: func(c []byte) string {
				return fmt.Sprintf("%s with %s on %s (variant %d)", readOps[c[0]].name, readOps[c[1]].name, raceDocs[c[2]], c[3])
			}},
		{Name: "race3", Variant: "race", Rule: "all read operations at once in 8 goroutines, in all rotations, on every document",
			Enum: func(emit func([]byte) bool) {
				for k := range raceDocs {
					for r := range readOps {
						if !emit([]byte{byte(k), byte(r)}) {
							return
						}
					}
				}
			}, Check: func(t *core.T, c []byte) {
				var d njson.Document
				n, _, _ := d.Parse(raceDocs[c[0]])
				var wg sync.WaitGroup
				errs := make([]error, 8)
				want := make([]string, len(readOps))
				for i := range readOps {
					want[i] = readOps[i].f(n)
				}
				for g := 0; g < 8; g++ {
					wg.Add(1)
					go func(g int) {
						defer wg.Done()
						for i := range readOps {
							k := (i + g*int(c[1])) % len(readOps)
							if got := readOps[k].f(n); got != want[k] {
								errs[g] = errors.New(readOps[k].name + " gives " + got + ", want " + want[k])
							}
						}
					}(g)
				}
				wg.Wait()
				t.Steps(8 * len(readOps))
				for _, e := range errs {
					if e != nil {
						t.Failf("%v", e)
					}
				}
			}},
	}
}

func wideRead(t *core.T, c []byte) {
	var kind string
	var n, i, j int
	fmt.Sscanf(string(c), "%s %d %d %d", &kind, &n, &i, &j)
	text := "[" + strings.Join(seqS(n, strconv.Itoa), ",") + "]"
	if kind != "array" {
		text = "{" + strings.Join(seqS(n, func(x int) string {
			if kind == "dup" && (x == i || x == j) {
				return fmt.Sprintf(`"d":%d`, x)
			}
			return fmt.Sprintf(`"%d":%d`, x, x)
		}), ",") + "}"
	}
	v, _, _ := model.Parse(text)
	var d njson.Document
	nd, _, err := d.Parse(text)
	if err != nil {
		t.Failf("parse: %v", err)
	}
	var segs []string
	for x := 0; x <= n+12; x++ {
		segs = append(segs, strconv.Itoa(x))
	}
	segs = append(segs, "d", "", "-0", "1x", "x1", " 1", "1 ", "99999999999999999999", "18446744073709551616", "9223372036854775808", "4294967296", ":", "/", "1:", "1/")
	paths := [][]string{}
	for _, s := range segs {
		paths = append(paths, []string{s})
	}
	for x := 1; x < n; x++ {
		paths = append(paths, []string{fmt.Sprintf("%d%020d", x, 0)}, []string{new9(x)})
	}
	t.State(text)
	readAll(t, &d, nd, v, paths, segs, "root")
}

// new9 is x + 2^64, a number that wraps around to x.
func new9(x int) string {
	// 2^64 = 18446744073709551616
	return "184467440737095" + strconv.Itoa(51616+x)
}
