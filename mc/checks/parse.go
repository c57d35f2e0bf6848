package checks

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/alxarch/njson"

	"verif/mc/core"
	"verif/mc/model"
)

// parseAgrees parses s in d and compares everything observable with the reference.
func parseAgrees(t *core.T, d *njson.Document, s string, allJSON bool) (*model.Val, njson.Node) {
	v, rest, e := model.Parse(s)
	t.Steps(len(s))
	n, tail, err := d.Parse(s)
	if e == nil {
		if err != nil {
			t.Failf("parsing %q fails: %v", clip(s), err)
		}
		if tail != rest {
			t.Failf("parsing %q: rest is %q, want %q", clip(s), clip(tail), clip(rest))
		}
		if d := diffNode(n, v, allJSON); d != "" {
			t.Failf("parsing %q: %s", clip(s), d)
		}
		if !allJSON {
			mustJSON(t, n, v.Append(nil), "parsing "+fmt.Sprintf("%q", clip(s)))
		}
		return v, n
	}
	if err == nil {
		j, _ := n.AppendJSON(nil)
		t.Failf("parsing %q succeeds (value %q, rest %q), want failure %+v", clip(s), clip(string(j)), clip(tail), *e)
	}
	switch x := err.(type) {
	case njson.UnexpectedEOF:
		if !e.Incomplete {
			t.Failf("parsing %q: reported as incomplete (%v), want a syntax error at %d", clip(s), err, e.Pos)
		}
		if njson.Type(x) != typeOf(e.Kind) {
			t.Failf("parsing %q: incomplete %v, want incomplete %v", clip(s), njson.Type(x), typeOf(e.Kind))
		}
		if tail != s {
			t.Failf("parsing %q: incomplete, but the input is handed back as %q", clip(s), clip(tail))
		}
	case *njson.ParseError:
		if e.Incomplete {
			t.Failf("parsing %q: reported as %v, want incomplete", clip(s), err)
		}
		if x.Pos() != e.Pos {
			t.Failf("parsing %q: error at %d, want %d (%v)", clip(s), x.Pos(), e.Pos, err)
		}
		if x.Type() != typeOf(e.Kind) {
			t.Failf("parsing %q: error while reading %v, want %v (%v)", clip(s), x.Type(), typeOf(e.Kind), err)
		}
		if err.Error() == "" {
			t.Failf("empty error message")
		}
	default:
		t.Failf("parsing %q: unknown error %T %v", clip(s), err, err)
	}
	if n.Type() != njson.TypeInvalid {
		t.Failf("parsing %q fails but returns a %v", clip(s), n.Type())
	}
	return nil, n
}

func state(t *core.T, s string) {
	v, rest, e := model.Parse(s)
	if e != nil {
		t.State(fmt.Sprint("E", e.Incomplete, e.Pos, e.Kind))
	} else {
		t.State(v.Compact() + "|" + rest)
	}
}

// shapes is the catalogue of size-parameterised documents.
// Each builds a document text from up to two sizes.
var shapes = []struct {
	name string
	f    func(n, m int) string
}{
	{"array-scalars", func(n, m int) string { return "[" + rep("1", n) + "]" }},
	{"object-scalars", func(n, m int) string {
		return "{" + repf(n, func(i int) string { return fmt.Sprintf(`"k%d":%d`, i, i) }) + "}"
	}},
	{"array-of-arrays", func(n, m int) string { return "[" + rep("["+rep("true", m)+"]", n) + "]" }},
	{"array-of-objects", func(n, m int) string {
		o := "{" + repf(m, func(i int) string { return fmt.Sprintf(`"%c":"v"`, 'a'+i%26) }) + "}"
		return "[" + rep(o, n) + "]"
	}},
	{"object-of-objects", func(n, m int) string {
		o := "{" + repf(m, func(i int) string { return fmt.Sprintf(`"i%d":null`, i) }) + "}"
		return "{" + repf(n, func(i int) string { return fmt.Sprintf(`"o%d":%s`, i, o) }) + "}"
	}},
	{"object-of-arrays", func(n, m int) string {
		o := "[" + repf(m, func(i int) string { return fmt.Sprint(i) }) + "]"
		return "{" + repf(n, func(i int) string { return fmt.Sprintf(`"o%d":%s`, i, o) }) + "}"
	}},
	{"nested-arrays", func(n, m int) string {
		if n == 0 {
			return "0"
		}
		return strings.Repeat("[", n) + rep("0", m) + strings.Repeat("]", n)
	}},
	{"nested-objects", func(n, m int) string {
		if n == 0 {
			return "false"
		}
		return strings.Repeat(`{"a":`, n-1) + "{" + repf(m, func(i int) string { return fmt.Sprintf(`"k%d":1`, i) }) + "}" + strings.Repeat("}", n-1)
	}},
	{"nested-left", func(n, m int) string { // members after a nested first child
		s := "[" + rep("1", m) + "]"
		for i := 0; i < n; i++ {
			s = "[" + s + `,"x"]`
		}
		return s
	}},
	{"nested-mixed", func(n, m int) string {
		s := "[" + rep("null", m) + "]"
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				s = `{"a":1,"b":` + s + `,"c":"d"}`
			} else {
				s = `[0,` + s + `,{}]`
			}
		}
		return s
	}},
	{"array-then-object", func(n, m int) string {
		return `[[` + rep(`"s"`, n) + `],{` + repf(m, func(i int) string { return fmt.Sprintf(`"k%d":[]`, i) }) + `},[]]`
	}},
}

func rep(s string, n int) string {
	if n <= 0 {
		return ""
	}
	return strings.Repeat(s+",", n-1) + s
}
func repf(n int, f func(int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(f(i))
	}
	return b.String()
}

func shapeCase(k, n, m int) []byte { return []byte(fmt.Sprintf("%d %d %d", k, n, m)) }
func shapeText(c []byte) string {
	var k, n, m int
	fmt.Sscanf(string(c), "%d %d %d", &k, &n, &m)
	return shapes[k].f(n, m)
}
func shapeShow(c []byte) string {
	var k, n, m int
	fmt.Sscanf(string(c), "%d %d %d", &k, &n, &m)
	return fmt.Sprintf("%s n=%d m=%d: %s", shapes[k].name, n, m, clip(shapes[k].f(n, m)))
}

// sizes returns the size pairs used for the shapes.
func shapeSizes(tr string, emit func(c []byte) bool) {
	big := tier(tr, 40, 70)
	for k := range shapes {
		for n := 0; n <= big; n++ {
			for m := 0; m <= big; m++ {
				if n*m > 40*40 {
					continue
				}
				if !emit(shapeCase(k, n, m)) {
					return
				}
			}
		}
		for n := 0; n <= 300; n++ {
			for _, m := range []int{0, 1, 3} {
				if !emit(shapeCase(k, n, m)) {
					return
				}
			}
		}
		for _, n := range []int{511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4097, 10000} {
			if !emit(shapeCase(k, n, 2)) {
				return
			}
		}
	}
}

// treeDocs enumerates all documents with up to size nodes over the given leaves and keys.
func treeDocs(size int, leaves, keys []string, emit func(string) bool) {
	memo := map[int][]string{}
	var gen func(n int) []string
	// seqs(n, obj): member lists with n nodes in total
	var seqs func(n int, obj bool) []string
	memoS := map[[2]int][]string{}
	seqs = func(n int, obj bool) []string {
		k := [2]int{n, 0}
		if obj {
			k[1] = 1
		}
		if r, ok := memoS[k]; ok {
			return r
		}
		var out []string
		for first := 1; first <= n; first++ {
			var restL []string
			if first == n {
				restL = []string{""}
			} else {
				for _, r := range seqs(n-first, obj) {
					restL = append(restL, ","+r)
				}
			}
			for _, v := range gen(first) {
				for _, r := range restL {
					if obj {
						for _, key := range keys {
							out = append(out, `"`+key+`":`+v+r)
						}
					} else {
						out = append(out, v+r)
					}
				}
			}
		}
		memoS[k] = out
		return out
	}
	gen = func(n int) []string {
		if r, ok := memo[n]; ok {
			return r
		}
		var out []string
		if n == 1 {
			out = append(out, leaves...)
			out = append(out, "[]", "{}")
		} else {
			for _, s := range seqs(n-1, false) {
				out = append(out, "["+s+"]")
			}
			for _, s := range seqs(n-1, true) {
				out = append(out, "{"+s+"}")
			}
		}
		memo[n] = out
		return out
	}
	for n := 1; n <= size; n++ {
		for _, s := range gen(n) {
			if !emit(s) {
				return
			}
		}
	}
}

// strBodies are pieces of valid string bodies.
var strPieces = []string{"a", `\"`, `\\`, `\/`, `\n`, `\u0041`, `\ud83d\ude00`, "é", "\u2028", "{", "}", "[", "]", ":", ",", " ", "\x7f", "😀"}

func bodies(pieces []string, n int, emit func(string) bool) {
	ok := true
	var rec func(p string, n int)
	rec = func(p string, n int) {
		if !ok {
			return
		}
		if ok = emit(p); !ok || n == 0 {
			return
		}
		for _, x := range pieces {
			rec(p+x, n-1)
		}
	}
	rec("", n)
}

var strContexts = []string{`"%"`, `["%"]`, `{"%":1}`, `{"k":"%"}`, `["%","%"]`, `{"%":"%","x":"\\"}`, ` "%" `, `[["%"],{"%":["%"]}]`}

// numbers accepted by the grammar
func numWords(depth int, emit func(string) bool) {
	var rec func(p string, st, d int) bool
	// st: 0 start,1 after '-',2 zero,3 int digits,4 dot,5 frac,6 e,7 e sign,8 exp
	rec = func(p string, st, d int) bool {
		if st == 2 || st == 3 || st == 5 || st == 8 {
			if !emit(p) {
				return false
			}
		}
		if d == 0 {
			return true
		}
		for _, c := range "0195.-+eE" {
			ns := -1
			dig := c >= '0' && c <= '9'
			switch st {
			case 0, 1:
				if c == '-' && st == 0 {
					ns = 1
				} else if c == '0' {
					ns = 2
				} else if dig {
					ns = 3
				}
			case 2, 3:
				if dig && st == 3 {
					ns = 3
				} else if c == '.' {
					ns = 4
				} else if c == 'e' || c == 'E' {
					ns = 6
				}
			case 4, 5:
				if dig {
					ns = 5
				} else if st == 5 && (c == 'e' || c == 'E') {
					ns = 6
				}
			case 6:
				if dig {
					ns = 8
				} else if c == '+' || c == '-' {
					ns = 7
				}
			case 7, 8:
				if dig {
					ns = 8
				}
			}
			if ns >= 0 && !rec(p+string(c), ns, d-1) {
				return false
			}
		}
		return true
	}
	rec("", 0, depth)
}

func validCheck(t *core.T, c []byte) {
	s := string(c)
	if !json.Valid(c) {
		t.Failf("harness: %q is not valid JSON", s)
	}
	var d njson.Document
	v, n := parseAgrees(t, &d, s, true)
	if v == nil {
		t.Failf("valid text %q not accepted by the model", s)
	}
	t.State(v.Compact())
	// the document serialises its root, and appending keeps the buffer
	buf := []byte("prefix")
	b, err := d.AppendJSON(buf)
	if err != nil || string(b) != "prefix"+v.Compact() {
		t.Failf("document serialises as %q, %v, want %q", clip(string(b)), err, v.Compact())
	}
	if d := diffNode(d.Root(), v, false); d != "" {
		t.Failf("root of %q: %s", clip(s), d)
	}
	// spare capacity in the output buffer must make no difference, nor must what lies in it
	if len(s) < 64 {
		full := make([]byte, 3, len(s)+8)
		full2 := full[:cap(full)]
		for i := range full2 {
			full2[i] = '#'
		}
		b, err = n.AppendJSON(full2[:3])
		if err != nil || string(b) != "###"+v.Compact() {
			t.Failf("appending to a buffer with spare space gives %q, %v", clip(string(b)), err)
		}
	}
	// Parsed again, the output is the same tree: serialising is idempotent.
	var d2 njson.Document
	n2, _, err := d2.Parse(v.Compact())
	if err != nil {
		t.Failf("output %q cannot be parsed: %v", clip(v.Compact()), err)
	}
	if d := diffNode(n2, v, false); d != "" {
		t.Failf("output of %q parsed again: %s", clip(s), d)
	}
}

func init() {
	core.Register(&core.Property{ID: "C01", Level: "model_checking", Families: c01,
		Assumptions: []string{"number and key texts outside the enumerated alphabets behave like enumerated ones of the same byte classes"}})
	core.Register(&core.Property{ID: "C02", Level: "model_checking", Families: c02})
	core.Register(&core.Property{ID: "C03", Level: "model_checking", Families: c03})
}

func c01(tr string) []core.Family {
	leaves := []string{`""`, `"\\"`, `-1.5e+3`, "true", "false", "null", "0"}
	keys := []string{"", "a", `\"`}
	return []core.Family{
		{
			Name: "trees", Rule: "every document with up to N nodes over 7 scalars, [] and {} and 3 keys (repeats included)",
			Enum: func(emit func([]byte) bool) {
				treeDocs(tier(tr, 5, 6), leaves, keys, func(s string) bool { return emit([]byte(s)) })
			},
			Check: validCheck,
		},
		{
			Name: "tree-shapes", Rule: "every tree shape with up to N nodes over 1 scalar, [] and {} and 1 key",
			Enum: func(emit func([]byte) bool) {
				treeDocs(tier(tr, 8, 9), []string{`"v"`}, []string{"k"}, func(s string) bool { return emit([]byte(s)) })
			},
			Check: validCheck,
		},
		{
			Name: "strings", Rule: "every string body of up to N pieces (escapes, delimiters, multi-byte) in 8 contexts (value, element, key, member, pairs)",
			Enum: func(emit func([]byte) bool) {
				for _, cx := range strContexts {
					ok := true
					bodies(strPieces, tier(tr, 4, 5), func(s string) bool {
						ok = emit([]byte(strings.ReplaceAll(cx, "%", s)))
						return ok
					})
					if !ok {
						return
					}
				}
			},
			Check: validCheck,
		},
		{
			Name: "backslashes", Rule: "bodies with 0..40 backslash pairs before, between and after other pieces",
			Enum: func(emit func([]byte) bool) {
				for _, cx := range strContexts {
					for n := 0; n <= 40; n++ {
						bs := strings.Repeat(`\\`, n)
						for _, s := range []string{bs, "x" + bs, bs + "x", bs + `\"`, `\"` + bs, "x" + bs + `\"` + bs, bs + `\u005c`, `\"` + bs + "x", strings.Repeat("y", n) + `\\`, strings.Repeat("y", n) + `\"`, strings.Repeat("y", n) + `\"` + strings.Repeat("z", n)} {
							if !emit([]byte(strings.ReplaceAll(cx, "%", s))) {
								return
							}
						}
					}
				}
			},
			Check: validCheck,
		},
		{
			Name: "numbers", Rule: "every number of up to N bytes over 0195.-+eE, in 7 contexts followed by every terminator",
			Enum: func(emit func([]byte) bool) {
				for i, cx := range []string{"%", "[%]", "[%,%]", `{"a":%}`, `{"a":%,"b":%}`, " %\n", "[ %\t,\r% ]"} {
					ok := true
					d := tier(tr, 5, 7)
					if i == 0 {
						d += 2
					}
					numWords(d, func(s string) bool {
						ok = emit([]byte(strings.ReplaceAll(cx, "%", s)))
						return ok
					})
					if !ok {
						return
					}
				}
			},
			Check: validCheck,
		},
		{
			Name: "bytes-in-strings", Rule: "every single byte and every code point allowed in a string, alone and between letters, as value and key",
			Enum: func(emit func([]byte) bool) {
				for r := rune(0x20); r <= 0x10ffff; r++ {
					if r == '"' || r == '\\' || r >= 0xd800 && r < 0xe000 {
						continue
					}
					if r > 0x2fff && tr != "thorough" && r&0x3f != 0 && r&0x3f != 0x3f {
						continue
					}
					for _, cx := range []string{`"%"`, `{"a%":"%b"}`} {
						if !emit([]byte(strings.ReplaceAll(cx, "%", string(r)))) {
							return
						}
					}
				}
			},
			Check: validCheck,
		},
		{
			Name: "whitespace", Rule: "every choice of whitespace from {none, each of the 4 bytes, a mixed run} in every gap of 8 small documents",
			Enum: func(emit func([]byte) bool) {
				ws := []string{"", " ", "\t", "\n", "\r", " \t\n\r "}
				for _, toks := range [][]string{
					{"1"}, {`""`}, {"[", "]"}, {"{", "}"}, {"[", "1", "]"}, {"[", "null", ",", `"a"`, "]"},
					{"{", `"a"`, ":", "1", "}"}, {"[", "[", "]", ",", "{", "}", "]"},
				} {
					g := len(toks) + 1
					idx := make([]int, g)
					for {
						var b strings.Builder
						for i, x := range toks {
							b.WriteString(ws[idx[i]])
							b.WriteString(x)
						}
						b.WriteString(ws[idx[g-1]])
						if !emit([]byte(b.String())) {
							return
						}
						i := 0
						for ; i < g; i++ {
							if idx[i]++; idx[i] < len(ws) {
								break
							}
							idx[i] = 0
							if g > 6 && i > 5 && tr != "thorough" {
								i = g
								break
							}
						}
						if i >= g {
							break
						}
					}
				}
				// long runs
				for n := 0; n < 80; n++ {
					for _, w := range ws[1:] {
						r := strings.Repeat(w, n)
						for _, s := range []string{"%1", "1%", "[%]", "{%}", "[1%,2]", "[1,%2]", `{%"a":1}`, `{"a"%:1}`, `{"a":%1}`, `{"a":1%}`, `{"a":1,%"b":2}`} {
							if !emit([]byte(strings.ReplaceAll(s, "%", r))) {
								return
							}
						}
					}
				}
			},
			Check: validCheck,
		},
		{
			Name: "sizes", Rule: "11 document shapes for all size pairs up to the bound and sizes around every growth step, and beyond 2^16 nodes",
			Enum: func(emit func([]byte) bool) {
				shapeSizes(tr, emit)
				for k := range shapes {
					for _, n := range []int{65535, 65536, 65537, 70000} {
						if !emit(shapeCase(k, n, 2)) {
							return
						}
					}
				}
			}, Show: shapeShow,
			Check: func(t *core.T, c []byte) {
				s := shapeText(c)
				var d njson.Document
				v, _ := parseAgrees(t, &d, s, len(s) < 300)
				if v == nil {
					t.Failf("%q not accepted", clip(s))
				}
				t.State(s)
			},
		},
		{
			Name: "lengths", Rule: "strings and keys of every length 0..N and numbers of every length 1..N, with and without escapes, in contexts",
			Enum: func(emit func([]byte) bool) {
				for n := 0; n <= tier(tr, 600, 5000); n++ {
					x := strings.Repeat("x", n)
					for _, s := range []string{`"` + x + `"`, `["` + x + `",1]`, `{"` + x + `":"` + x + `"}`, `{"a":"` + x + `\n","b":"\"` + x + `"}`, `{"` + x + `\"":0,"\"` + x + `":1}`, "[1" + strings.Repeat("0", n) + ",-1." + strings.Repeat("5", n+1) + "]"} {
						if !emit([]byte(s)) {
							return
						}
					}
				}
				for _, n := range []int{4094, 4095, 4096, 4097, 65535, 65536, 1 << 17} {
					x := strings.Repeat("y", n)
					if !emit([]byte(`{"` + x + `":["` + x + `"]}`)) {
						return
					}
				}
			},
			Check: validCheck,
		},
	}
}

// lexTokens for structural words.
var lexTokens = []string{"{", "}", "[", "]", ":", ",", " ", `""`, `"a"`, `"b\\"`, `"\""`, "1", "-0.5e+1", "true", "null", "fals", `"`, "x"}
var structTokens = []string{"{", "}", "[", "]", ":", ",", `"a"`, "1", "null"}

// byteAlpha is one byte of each class the grammar distinguishes, and a few more.
var byteAlpha = func() (out []string) {
	for _, c := range "{}[]\":,\\/nultrefasb0-.+ \n\tx\x00\x80\xff'" {
		_ = c
	}
	for _, c := range []byte("{}[]\":,\\nultrefas0-. \nx\x00\xff") {
		out = append(out, string([]byte{c}))
	}
	return
}()

func allBytes() (out []string) {
	for i := 0; i < 256; i++ {
		out = append(out, string([]byte{byte(i)}))
	}
	return
}

func malformedCheck(t *core.T, c []byte) {
	s := string(c)
	state(t, s)
	var d njson.Document
	if v, _ := parseAgrees(t, &d, s, false); v == nil {
		// nothing was added: the document is still empty and the next value is its root
		if ty := d.Root().Type(); ty != njson.TypeInvalid {
			t.Failf("after failing to parse %q the empty document has a root of kind %v", clip(s), ty)
		}
		if b, err := d.AppendJSON(nil); err == nil {
			t.Failf("after failing to parse %q the empty document serialises as %q", clip(s), clip(string(b)))
		}
		if _, _, err := d.Parse("[7]"); err != nil {
			t.Failf("parsing [7] after failing to parse %q: %v", clip(s), err)
		}
		mustJSON(t, d.Root(), []byte("[7]"), "root parsed after "+fmt.Sprintf("%q", clip(s)))
	}
	// the same on a document that already holds values
	const pre = `{"a":[1,"x",{"b":null}],"c":true}`
	w, _ := t.W["filled"].(*njson.Document)
	if w == nil {
		w = &njson.Document{}
		t.W["filled"] = w
	}
	w.Reset()
	n, _, err := w.Parse(pre)
	if err != nil {
		t.Failf("parsing %q fails: %v", pre, err)
	}
	other := w.Array()
	parseAgrees(t, w, s, false)
	mustJSON(t, n, []byte(pre), "value parsed before "+fmt.Sprintf("%q", clip(s)))
	mustJSON(t, other, []byte("[]"), "value built before "+fmt.Sprintf("%q", clip(s)))
	mustJSON(t, w.Root(), []byte(pre), "root after "+fmt.Sprintf("%q", clip(s)))
	// and once more: whatever the first attempt left behind must not matter
	parseAgrees(t, w, s, false)
	mustJSON(t, n, []byte(pre), "value parsed before "+fmt.Sprintf("%q (second time)", clip(s)))
}

func c02(tr string) []core.Family {
	return []core.Family{
		{
			Name: "all-bytes", Rule: "every byte string of length <= 2 (3 thorough) over all 256 bytes that stays live, and every live prefix x all 256 bytes",
			Enum: func(emit func([]byte) bool) {
				if !emit(nil) {
					return
				}
				words(allBytes(), tier(tr, 2, 3), 1, emit)
			},
			Check: malformedCheck,
		},
		{
			Name: "all-bytes-in-context", Rule: "every byte at every position (inserted, replacing, truncating after) of 24 short documents",
			Enum: func(emit func([]byte) bool) {
				for _, s := range corpus {
					for i := 0; i <= len(s); i++ {
						if !emit([]byte(s[:i])) {
							return
						}
						for b := 0; b < 256; b++ {
							x := string([]byte{byte(b)})
							if !emit([]byte(s[:i] + x + s[i:])) {
								return
							}
							if i < len(s) && !emit([]byte(s[:i]+x+s[i+1:])) {
								return
							}
						}
						if i < len(s) && !emit([]byte(s[:i]+s[i+1:])) {
							return
						}
					}
				}
			},
			Check: malformedCheck,
		},
		{
			Name: "bytes", Rule: "all live words over 24 byte classes up to the depth, and every one-byte extension of them",
			Enum: func(emit func([]byte) bool) { words(byteAlpha, tier(tr, 5, 7), 1, emit) }, Check: malformedCheck,
		},
		{
			Name: "tokens", Rule: "all live words over 18 tokens up to the depth, and every one-token extension",
			Enum: func(emit func([]byte) bool) { words(lexTokens, tier(tr, 6, 8), 1, emit) }, Check: malformedCheck,
		},
		{
			Name: "structure", Rule: "all live words over 9 structural tokens up to the depth, and every one-token extension",
			Enum: func(emit func([]byte) bool) { words(structTokens, tier(tr, 9, 11), 1, emit) }, Check: malformedCheck,
		},
		{
			Name: "damaged-sizes", Rule: "11 shapes x sizes, cut at and near every growth step, and with each closing token replaced",
			Enum: func(emit func([]byte) bool) {
				for k := range shapes {
					for _, n := range []int{0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129} {
						for _, m := range []int{0, 1, 2, 3, 4, 7, 8} {
							s := shapes[k].f(n, m)
							step := 1 + len(s)/tier(tr, 60, 400)
							for i := 0; i < len(s); i += step {
								if !emit([]byte(s[:i])) || !emit([]byte(s[:i]+"x"+s[i:])) || !emit([]byte(s[:i]+"]"+s[i+1:])) || !emit([]byte(s[:i]+"}"+s[i+1:])) {
									return
								}
							}
						}
					}
				}
			},
			Check: malformedCheck,
		},
		{
			Name: "deep", Rule: "nesting of every depth up to N and powers of ten, unclosed and wrongly closed",
			Enum: func(emit func([]byte) bool) {
				for _, open := range []string{"[", `{"a":`, `[{"b":`, "[1,"} {
					for n := 1; n <= 300; n++ {
						for _, end := range []string{"", "]", "}", "1", "x", "1]", "1}"} {
							if !emit([]byte(strings.Repeat(open, n) + end)) {
								return
							}
						}
					}
					for _, n := range []int{1000, 10000, 20000} {
						if !emit([]byte(strings.Repeat(open, n))) || !emit([]byte(strings.Repeat(open, n)+"x")) {
							return
						}
					}
				}
			},
			Check: malformedCheck,
		},
	}
}

var corpus = []string{
	`{"a":1}`, `[1,2]`, `"a\"b"`, `true`, `false`, `null`, `-1.5e+3`, `{"a":{"b":[]}}`, `[{},[]]`, ` [ 1 , 2 ] `, `{ "a" : 1 , "b" : 2 }`,
	`[true,false,null]`, `{"a":true,"b":null}`, `"\u0041\\"`, `[[["x"]]]`, `{"":""}`, `["",0]`, `{"a":"b","c":-0}`, "\t1\n", `[null]`, `[-1]`, `{"x":false}`, `["\\","\""]`, `[1.5,"é"]`,
}

// ---- C03

func streamCheck(t *core.T, c []byte) {
	s := string(c)
	t.Steps(len(s))
	var d njson.Document
	var want []*model.Val
	var got []njson.Node
	rest, tail := s, s
	for k := 0; k < 100; k++ {
		v, r, e := model.Parse(rest)
		var single njson.Document
		n, tl, err := d.Parse(tail)
		if e != nil {
			if err == nil {
				t.Failf("value %d of %q: succeeds, want failure", k, s)
			}
			if e.Incomplete {
				if _, ok := err.(njson.UnexpectedEOF); !ok {
					t.Failf("value %d of %q: %v, want incomplete", k, s, err)
				}
				if tl != tail {
					t.Failf("value %d of %q: incomplete but %q is handed back instead of %q", k, s, tl, tail)
				}
			}
			break
		}
		if err != nil {
			t.Failf("value %d of %q: %v", k, s, err)
		}
		if tl != r {
			t.Failf("value %d of %q: rest %q, want %q", k, s, tl, r)
		}
		if df := diffNode(n, v, false); df != "" {
			t.Failf("value %d of %q: %s", k, s, df)
		}
		// alone
		n1, t1, err := single.Parse(rest[:len(rest)-len(r)])
		if err != nil || t1 != "" {
			t.Failf("value %d of %q alone: rest %q, error %v", k, s, t1, err)
		}
		if df := diffNode(n1, v, false); df != "" {
			t.Failf("value %d of %q alone: %s", k, s, df)
		}
		want, got = append(want, v), append(got, n)
		rest, tail = r, tl
		if rest == "" {
			break
		}
	}
	st := ""
	for i := range got {
		if df := diffNode(got[i], want[i], true); df != "" {
			t.Failf("value %d of %q after reading the others: %s", i, s, df)
		}
		st += want[i].Compact() + "|"
	}
	t.State(st + rest)
}

// cutCheck cuts a text everywhere and feeds it piecewise.
func cutCheck(t *core.T, c []byte) {
	s := string(c)
	v, rest, e := model.Parse(s)
	if e != nil {
		return
	}
	t.State(s)
	end := len(s) - len(rest)
	var d, acc njson.Document
	for i := 0; i <= end; i++ {
		t.Steps(1)
		t.Runs(1)
		pv, prest, pe := model.Parse(s[:i])
		n, tail, err := d.Parse(s[:i])
		if pe == nil {
			// numbers: a prefix may be a complete value
			if err != nil || tail != prest {
				t.Failf("prefix %q: rest %q error %v", s[:i], tail, err)
			}
			if df := diffNode(n, pv, false); df != "" {
				t.Failf("prefix %q: %s", s[:i], df)
			}
			continue
		}
		if _, ok := err.(njson.UnexpectedEOF); !ok {
			t.Failf("prefix %q of valid text: %v, want incomplete", s[:i], err)
		}
		if tail != s[:i] {
			t.Failf("prefix %q: handed back as %q", s[:i], tail)
		}
		// append the missing bytes and retry in the same document
		n, tail, err = d.Parse(tail + s[i:])
		if err != nil || tail != rest {
			t.Failf("%q completed after a cut at %d: rest %q error %v", clip(s), i, tail, err)
		}
		if df := diffNode(n, v, false); df != "" {
			t.Failf("%q completed after a cut at %d: %s", clip(s), i, df)
		}
		if len(s) > 40 {
			d.Reset()
		}
	}
	// byte-by-byte feeding until it completes
	buf := ""
	for i := 0; i < end; i++ {
		buf += s[i : i+1]
		pv, _, pe := model.Parse(buf)
		n, tail, err := acc.Parse(buf)
		if (pe == nil) != (err == nil) {
			t.Failf("fed byte by byte, %q: %v", buf, err)
		}
		if pe == nil {
			if df := diffNode(n, pv, false); df != "" {
				t.Failf("fed byte by byte, %q: %s", buf, df)
			}
		} else if tail != buf {
			t.Failf("fed byte by byte, %q handed back as %q", buf, tail)
		}
	}
}

func c03(tr string) []core.Family {
	vals := []string{"1", "-2.5", `"a"`, `""`, `"\\"`, "true", "null", "[]", "{}", `[1,"x"]`, `{"a":[{}]}`, "[[1],[2,3]]", `{"k":"\""}`, " 7"}
	seps := []string{"", " ", "\n", "\t\r\n", ","}
	return []core.Family{
		{
			Name: "concatenations", Rule: "every sequence of up to N of 14 values with every separator of 5 between, before and after, read value by value in one document",
			Enum: func(emit func([]byte) bool) {
				ok := true
				var rec func(p string, n int)
				rec = func(p string, n int) {
					if !ok {
						return
					}
					if p != "" {
						for _, s := range []string{"", " ", "\n"} {
							if ok = emit([]byte(p + s)); !ok {
								return
							}
						}
					}
					if n == 0 {
						return
					}
					for _, v := range vals {
						for _, s := range seps {
							if p == "" && s == "," {
								continue
							}
							rec(p+s+v, n-1)
						}
					}
				}
				rec("", tier(tr, 3, 4))
			},
			Check: streamCheck,
		},
		{
			Name: "tails", Rule: "all live words over 18 tokens, with up to 3 tokens after the completed value",
			Enum: func(emit func([]byte) bool) { words(lexTokens, tier(tr, 4, 5), 3, emit) }, Check: streamCheck,
		},
		{
			Name: "all-byte-tails", Rule: "14 values followed by every byte, and by every pair of bytes",
			Enum: func(emit func([]byte) bool) {
				for _, v := range vals {
					for a := 0; a < 256; a++ {
						if !emit([]byte(v + string([]byte{byte(a)}))) {
							return
						}
						for b := 0; b < 256; b++ {
							if !emit([]byte(v + string([]byte{byte(a), byte(b)}))) {
								return
							}
						}
					}
				}
			},
			Check: streamCheck,
		},
		{
			Name: "cuts-trees", Rule: "every document of up to N nodes cut at every byte, retried with the missing bytes, and fed byte by byte",
			Enum: func(emit func([]byte) bool) {
				treeDocs(tier(tr, 4, 5), []string{`"a\\"`, `-1.5e+3`, "true", "null", "12"}, []string{"", `x\"`}, func(s string) bool {
					return emit([]byte(s)) && emit([]byte(" "+s+" ")) && emit([]byte(strings.NewReplacer(",", " , ", ":", " : ", "[", "[ ", "}", " }").Replace(s)))
				})
			},
			Check: cutCheck,
		},
		{
			Name: "cuts-strings", Rule: "strings of up to 3 pieces in 8 contexts cut at every byte",
			Enum: func(emit func([]byte) bool) {
				for _, cx := range strContexts {
					ok := true
					bodies(strPieces, tier(tr, 2, 3), func(s string) bool {
						ok = emit([]byte(strings.ReplaceAll(cx, "%", s)))
						return ok
					})
					if !ok {
						return
					}
				}
			},
			Check: cutCheck,
		},
		{
			Name: "cuts-sizes", Rule: "11 shapes with sizes around growth steps, cut at every byte",
			Enum: func(emit func([]byte) bool) {
				for k := range shapes {
					for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33} {
						for _, m := range []int{0, 1, 2, 3, 5} {
							if n*m > 64 {
								continue
							}
							if !emit(shapeCase(k, n, m)) {
								return
							}
						}
					}
				}
			},
			Show:  shapeShow,
			Check: func(t *core.T, c []byte) { cutCheck(t, []byte(shapeText(c))) },
		},
	}
}
