package checks

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/strjson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C09", Level: "exhaustive", Families: c09, Quick: 90, Thorough: 800,
		Assumptions: []string{"The reference decoder (model.Unescape) is itself compared with encoding/json on every string of the words and utf8 families."}})
	core.Register(&core.Property{ID: "C10", Level: "exhaustive", Families: c10, Quick: 90, Thorough: 800,
		Assumptions: []string{"The buffer given to strjson.Unescape is at least as long as the input, as its documentation requires.",
			"The reference decoder (model.Unescape) is compared with encoding/json on every valid body enumerated."}})
}

// flat enumerates all words of length 0..n over toks.
func flat(toks []string, n int, emit func([]byte) bool) {
	var rec func(p []byte, n int) bool
	rec = func(p []byte, n int) bool {
		if !emit(p) {
			return false
		}
		if n == 0 {
			return true
		}
		for _, t := range toks {
			if !rec(append(p[:len(p):len(p)], t...), n-1) {
				return false
			}
		}
		return true
	}
	rec(nil, n)
}

const guard = 0xA7

// buffers calls f with destination buffers in all interesting states; f appends and returns.
// The bytes in front, and those of the backing array outside the result, must not change.
func buffers(t *core.T, what string, want string, caps []int, app func(dst []byte) []byte) {
	for _, pre := range []int{0, 1, 3} {
		for _, c := range caps {
			backing := make([]byte, pre+c+8)
			for i := range backing {
				backing[i] = guard
			}
			dst := backing[: pre : pre+c]
			got := app(dst)
			t.Runs(1)
			if len(got) != pre+len(want) || string(got[pre:]) != want {
				t.Failf("%s with %d bytes in a buffer with room for %d: result %q, want %q after the prefix", what, pre, c, got, want)
			}
			for i := 0; i < pre; i++ {
				if got[i] != guard || backing[i] != guard {
					t.Failf("%s changes the bytes already in the buffer", what)
				}
			}
			for i := pre + c; i < len(backing); i++ {
				if backing[i] != guard {
					t.Failf("%s writes past the capacity of the buffer", what)
				}
			}
		}
	}
}

func escapeCheck(t *core.T, c []byte) { escapeOne(t, string(c), false) }
func escapeCheckBuf(t *core.T, c []byte) {
	escapeOne(t, string(c), true)
}

func escapeOne(t *core.T, s string, full bool) {
	want := model.ValidUTF8(s)
	for _, html := range []bool{false, true} {
		e := strjson.Escaped(s, html, false)
		t.Steps(len(s))
		for i := 0; i < len(e); i++ {
			switch ch := e[i]; {
			case ch < 0x20:
				t.Failf("escaping %q (html %v) leaves a control character: %q", s, html, e)
			case html && (ch == '<' || ch == '>' || ch == '&'):
				t.Failf("escaping %q as HTML leaves %q: %q", s, ch, e)
			case ch == 0xe2 && i+2 < len(e) && e[i+1] == 0x80 && (e[i+2] == 0xa8 || e[i+2] == 0xa9):
				t.Failf("escaping %q leaves a line or paragraph separator: %q", s, e)
			}
		}
		if !model.ValidBody(e) {
			t.Failf("escaping %q (html %v) gives %q, which is not the body of a JSON string", s, html, e)
		}
		if got := model.Unescape(e); got != want {
			t.Failf("escaping %q (html %v) gives %q, which reads back as %q, want %q", s, html, e, got, want)
		}
		if got := strjson.Escaped(s, html, true); got != `"`+e+`"` {
			t.Failf("escaping %q (html %v) quoted gives %q, unquoted %q", s, html, got, e)
		}
		if got := strjson.AppendEscaped(nil, s, html); string(got) != e {
			t.Failf("appending %q (html %v) escaped gives %q, the string form %q", s, html, got, e)
		}
		t.Runs(3)
		if full {
			t.State(e)
			caps := []int{0, 1, len(s) - 1, len(s), len(s) + 1, len(e) - 1, len(e), len(e) + 1, len(e) + 7, 3 * len(e)}
			for i := range caps {
				if caps[i] < 0 {
					caps[i] = 0
				}
			}
			buffers(t, fmt.Sprintf("appending %q escaped", s), e, caps, func(d []byte) []byte { return strjson.AppendEscaped(d, s, html) })
			var std string
			if err := json.Unmarshal([]byte(`"`+e+`"`), &std); err != nil || std != want {
				t.Failf("encoding/json reads %q as %q (%v), want %q", e, std, err, want)
			}
			if got := strjson.Unescaped(e); got != want {
				t.Failf("%q escaped and unescaped is %q, want %q", s, got, want)
			}
		}
	}
	if full {
		// Through a document
		d := njson.Document{}
		n := d.Text(s)
		if n.Unescaped() != want || n.Raw() != strjson.Escaped(s, false, false) {
			t.Failf("Text(%q) reads as %q", s, n.Unescaped())
		}
		n = d.TextHTML(s)
		if n.Unescaped() != want || n.Raw() != strjson.Escaped(s, true, false) {
			t.Failf("TextHTML(%q) reads as %q", s, n.Unescaped())
		}
		n.SetString(s)
		if n.Unescaped() != want || n.Raw() != strjson.Escaped(s, false, false) {
			t.Failf("SetString(%q) holds %q and reads as %q", s, n.Raw(), n.Unescaped())
		}
		n.SetStringHTML(s)
		if n.Unescaped() != want || n.Raw() != strjson.Escaped(s, true, false) {
			t.Failf("SetStringHTML(%q) holds %q and reads as %q", s, n.Raw(), n.Unescaped())
		}
	}
}

var escPieces = []string{"a", "<", ">", "&", `"`, `\`, "/", "\n", "\r", "\t", "\b", "\f", "\x00", "\x1f", "\x7f", "\x80", "\xbf", "\xc2", "\xe2", "\xe2\x80", "\xf0\x9f", "\xff", "é", "\u2028", "\u2029", "\u2027", "\ufffd", "\U0001F600", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80"}

// utfBytes are the byte values at which UTF-8 decoding changes its mind, plus the classes of the escaper.
var utfBytes = []byte{0x00, 0x08, 0x0a, 0x1f, 0x22, 0x26, 0x2f, 0x3c, 0x41, 0x5c, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xa7, 0xa8, 0xa9, 0xbd, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xe2, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff}

func c09(tr string) []core.Family {
	return []core.Family{
		{Name: "words", Rule: fmt.Sprintf("all strings of up to %d pieces from %d (every escape class, separators, valid and broken UTF-8 sequences), both modes, all three forms, all buffer states, through documents and encoding/json", 4, len(escPieces)),
			Enum: func(emit func([]byte) bool) { flat(escPieces, 4, emit) }, Check: escapeCheckBuf},
		{Name: "bytes", Rule: "all byte strings of length up to 2, all buffer states",
			Enum: func(emit func([]byte) bool) {
				for i := 0; i < 256; i++ {
					if !emit([]byte{byte(i)}) {
						return
					}
					for j := 0; j < 256; j++ {
						if !emit([]byte{byte(i), byte(j)}) {
							return
						}
					}
				}
			}, Check: escapeCheckBuf},
		{Name: "bytes3", Rule: "all byte strings of length 3",
			Enum: func(emit func([]byte) bool) {
				for i := 0; i < 256; i++ {
					for j := 0; j < 256; j++ {
						if !emit([]byte{byte(i), byte(j)}) {
							return
						}
					}
				}
			}, Check: func(t *core.T, c []byte) {
				b := []byte{c[0], c[1], 0}
				for k := 0; k < 256; k++ {
					b[2] = byte(k)
					escapeOne(t, string(b), false)
				}
			}},
		{Name: "utf8", Rule: fmt.Sprintf("all strings of %d bytes over %d boundary bytes of UTF-8 and of the escape classes", tier(tr, 4, 5), len(utfBytes)),
			Enum: func(emit func([]byte) bool) {
				n := tier(tr, 4, 5)
				var rec func(p []byte) bool
				rec = func(p []byte) bool {
					if len(p) == n-2 {
						return emit(p)
					}
					for _, b := range utfBytes {
						if !rec(append(p[:len(p):len(p)], b)) {
							return false
						}
					}
					return true
				}
				rec(nil)
			}, Check: func(t *core.T, c []byte) {
				b := append(append([]byte(nil), c...), 0, 0)
				for _, x := range utfBytes {
					for _, y := range utfBytes {
						b[len(c)], b[len(c)+1] = x, y
						escapeOne(t, string(b), false)
					}
				}
			}},
		{Name: "runes", Rule: "every code point 0..0x10FFFF (surrogates and beyond encoded as raw bytes), alone and next to plain, escaped and broken neighbours",
			Enum: func(emit func([]byte) bool) {
				for r := 0; r < 0x110400; r += 64 {
					if !emit([]byte(fmt.Sprint(r))) {
						return
					}
				}
			}, Check: func(t *core.T, c []byte) {
				var r0 int
				fmt.Sscan(string(c), &r0)
				for r := r0; r < r0+64; r++ {
					s := rawRune(r)
					for _, ctx := range [][2]string{{"", ""}, {"a", "b"}, {`"`, `"`}, {"\xe2\x80", "\xa8"}, {s, s}, {"\n", "<"}} {
						escapeOne(t, ctx[0]+s+ctx[1], false)
					}
				}
			}},
		{Name: "long", Rule: "strings of all lengths up to 130, and around powers of two to 64 KiB, with one or two special characters at every position (of the long ones: around powers of two and at the ends)",
			Enum: func(emit func([]byte) bool) {
				for n := 0; n <= tier(tr, 70, 130); n++ {
					for _, x := range []string{`"`, "\x01", "é", "\u2028", "\xff", "<"} {
						for i := 0; i <= n; i++ {
							s := strings.Repeat("a", i) + x + strings.Repeat("b", n-i)
							if !emit([]byte(s)) || !emit([]byte(s+x)) || !emit([]byte(x+s)) {
								return
							}
						}
					}
				}
				for _, n := range around(7, tier(tr, 13, 16)) {
					for _, x := range []string{`"`, "\x01", "é", "\u2028", "\xff", "<"} {
						for _, i := range append([]int{0, 1, n / 2, n - 1, n}, around(3, 16)...) {
							if i > n {
								break
							}
							s := strings.Repeat("a", i) + x + strings.Repeat("b", n-i)
							if !emit([]byte(s)) || !emit([]byte(s+x)) {
								return
							}
						}
						if !emit([]byte(strings.Repeat(x, n))) {
							return
						}
					}
				}
			}, Check: escapeCheckBuf},
	}
}

// rawRune encodes any number up to 0x1fffff the way UTF-8 would.
func rawRune(r int) string {
	switch {
	case r < 0x80:
		return string([]byte{byte(r)})
	case r < 0x800:
		return string([]byte{0xc0 | byte(r>>6), 0x80 | byte(r&63)})
	case r < 0x10000:
		return string([]byte{0xe0 | byte(r>>12), 0x80 | byte(r>>6&63), 0x80 | byte(r&63)})
	}
	return string([]byte{0xf0 | byte(r>>18), 0x80 | byte(r>>12&63), 0x80 | byte(r>>6&63), 0x80 | byte(r&63)})
}

// ---------------------------------------------------------------- C10

func unescapeOne(t *core.T, s string, full bool) {
	want := model.Unescape(s)
	t.Steps(len(s))
	if got := strjson.Unescaped(s); got != want {
		t.Failf("unescaping %q gives %q, want %q", s, got, want)
	}
	if len(want) > len(s) {
		t.Failf("the reference result for %q is longer than the input", s)
	}
	if got := strjson.AppendUnescaped(nil, s); string(got) != want {
		t.Failf("appending %q unescaped gives %q, want %q", s, got, want)
	}
	var arr [64]byte
	buf := arr[:]
	if len(s)+2 > len(buf) {
		buf = make([]byte, len(s)+2)
	}
	for i := range buf {
		buf[i] = guard
	}
	n := strjson.Unescape(buf[:len(s):len(s)], s)
	if n < 0 || n > len(s) || string(buf[:n]) != want {
		t.Failf("unescaping %q into a buffer of its length gives %d bytes %q, want %q", s, n, buf[:len(s)], want)
	}
	for i := len(s); i < len(buf); i++ {
		if buf[i] != guard {
			t.Failf("unescaping %q writes past its buffer", s)
		}
	}
	t.Runs(2)
	if !full {
		return
	}
	t.State(want)
	for _, extra := range []int{1, 7} {
		buf := make([]byte, len(s)+extra+4)
		for i := range buf {
			buf[i] = guard
		}
		n := strjson.Unescape(buf[:len(s)+extra:len(s)+extra], s)
		if n != len(want) || string(buf[:n]) != want {
			t.Failf("unescaping %q into a longer buffer gives %q, want %q", s, buf[:n], want)
		}
		for i := len(s); i < len(buf); i++ {
			if buf[i] != guard {
				t.Failf("unescaping %q writes past the length of the input", s)
			}
		}
	}
	caps := []int{0, 1, len(want), len(s), len(s) + 1, len(s) + 9}
	if len(s) > 0 {
		caps = append(caps, len(s)-1)
	}
	buffers(t, fmt.Sprintf("appending %q unescaped", s), want, caps, func(d []byte) []byte { return strjson.AppendUnescaped(d, s) })
	if model.ValidBody(s) {
		var std string
		if err := json.Unmarshal([]byte(`"`+s+`"`), &std); err != nil || std != want {
			t.Failf("reference: encoding/json reads %q as %q (%v), the model as %q", s, std, err, want)
		}
		if !utf8.ValidString(want) {
			t.Failf("reference: %q decodes to invalid UTF-8", s)
		}
		d := njson.Document{}
		nd, _, err := d.Parse(`["` + s + `"]`)
		if err != nil {
			t.Failf("parsing the body %q: %v", s, err)
		}
		if got := nd.Index(0).Unescaped(); got != want {
			t.Failf("node with text %q reads as %q, want %q", s, got, want)
		}
	}
}

var unescPieces = []string{"a", "u", "d", "0", `\\`, `\"`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`, `\u0041`, `\u0000`, `\u007f`, `\u0080`, `\u07ff`, `\u0800`, `\uFFFD`, `\uffff`, `\ud83d`, `\uDBFF`, `\uD800`, `\ude00`, `\uDC00`, `\udfff`, `\ue000`, `\ud7ff`, `\`, `\u`, `\u1`, `\u12`, `\ud83`, `\u00g0`, `\ug000`, `\u000g`, `\x`, `\U0041`, `\'`, "é", "\U0001F600", "\xff", "\n"}

func c10(tr string) []core.Family {
	return []core.Family{
		{Name: "words", Rule: fmt.Sprintf("all bodies of up to 3 pieces from %d (every escape, surrogates at the borders, malformed and truncated escapes), all three forms and all buffer states", len(unescPieces)),
			Enum: func(emit func([]byte) bool) { flat(unescPieces, 3, emit) }, Check: func(t *core.T, c []byte) { unescapeOne(t, string(c), true) }},
		{Name: "words4", Rule: fmt.Sprintf("all bodies of up to %d pieces", tier(tr, 4, 5)),
			Enum: func(emit func([]byte) bool) { flat(unescPieces, tier(tr, 2, 3), emit) }, Check: func(t *core.T, c []byte) {
				for _, a := range unescPieces {
					for _, b := range unescPieces {
						unescapeOne(t, string(c)+a+b, false)
					}
				}
			}},
		{Name: "letters", Rule: fmt.Sprintf("all strings of up to %d characters over backslash, quote, u, d, 8, c, 0, g, n", tier(tr, 8, 9)),
			Enum: func(emit func([]byte) bool) {
				flat(strings.Split(`\ " u d 8 c 0 g n`, " "), tier(tr, 6, 7), emit)
			}, Check: func(t *core.T, c []byte) {
				al := `\"ud8c0gn`
				unescapeOne(t, string(c), false)
				for _, a := range al {
					for _, b := range al {
						unescapeOne(t, string(c)+string(a)+string(b), false)
					}
				}
			}},
		{Name: "surr", Rule: "all strings \\uXY.. of 12 characters built from two escapes whose digits are at the surrogate borders, truncated at every length",
			Enum: func(emit func([]byte) bool) {
				hexs := []string{"d7ff", "d800", "D83D", "dbff", "dBfE", "dc00", "DE00", "dfff", "e000", "0041", "0000", "g800", "d8g0", "d80g", "dg00", "dc0g", "gc00"}
				for _, a := range hexs {
					for _, b := range hexs {
						for _, c := range []string{`\u0041`, `\ude00`, "x", ""} {
							s := `\u` + a + `\u` + b + c
							for i := 0; i <= len(s); i++ {
								if !emit([]byte(s[:i])) || !emit([]byte("x"+s[:i])) {
									return
								}
							}
							for _, mid := range []string{"a", `\`, `\\`, `"`, "u", `\n`} {
								if !emit([]byte(`\u`+a+mid+`\u`+b+c)) || !emit([]byte(`\u`+a+mid+`u`+b+c)) {
									return
								}
							}
						}
					}
				}
			}, Check: func(t *core.T, c []byte) { unescapeOne(t, string(c), true) }},
		{Name: "u4", Rule: "all 65536 \\u escapes in lower, upper and mixed case, alone, doubled, and between neighbours",
			Enum: func(emit func([]byte) bool) {
				for i := 0; i < 0x10000; i += 16 {
					if !emit([]byte(fmt.Sprintf("%04x", i))) {
						return
					}
				}
			}, Check: func(t *core.T, c []byte) {
				var r0 int
				fmt.Sscanf(string(c), "%x", &r0)
				for r := r0; r < r0+16; r++ {
					lo := fmt.Sprintf(`\u%04x`, r)
					up := fmt.Sprintf(`\u%04X`, r)
					mix := lo[:3] + up[3:4] + lo[4:5] + up[5:]
					unescapeOne(t, lo, true)
					for _, e := range []string{up, mix, lo + up, "a" + lo + "0", `\\` + lo, `\ud800` + lo, lo + `\udc00`, lo + `\ude00x`, lo + `\u`, lo[:5], `\` + lo} {
						unescapeOne(t, e, false)
					}
				}
			}},
		{Name: "pairs", Rule: "surrogate pairs: every high half with every low half, plus all 2048 surrogates followed by every escape of one leading digit",
			Enum: func(emit func([]byte) bool) {
				for i := 0xd800; i < 0xe000; i++ {
					if !emit([]byte(fmt.Sprintf("%04x", i))) {
						return
					}
				}
			}, Check: func(t *core.T, c []byte) {
				step := 1
				var b [12]byte
				copy(b[:], `\u`+string(c)+`\u`)
				const hx = "0123456789abcdef"
				try := func(r int) {
					b[8], b[9], b[10], b[11] = hx[r>>12], hx[r>>8&15], hx[r>>4&15], hx[r&15]
					unescapeOne(t, string(b[:]), false)
				}
				for r := 0xdc00; r < 0xe000; r += step {
					try(r)
				}
				for r := 0; r < 0x10000; r += 0x800 {
					try(r)
					try(r + 0x7ff)
				}
			}},
		{Name: "cut", Rule: "bodies of all lengths up to 100, and around powers of two to 64 KiB, with an escape at every position (of the long ones: around powers of two and at the ends), cut anywhere inside it",
			Enum: func(emit func([]byte) bool) {
				for n := 0; n <= tier(tr, 40, 100); n++ {
					for _, x := range []string{`\n`, `\u00e9`, `\ud83d\ude00`, `\\`, `\z`} {
						for i := 1; i <= len(x); i++ {
							if !emit([]byte(strings.Repeat("a", n) + x[:i])) {
								return
							}
						}
						for i := 0; i <= n; i += 3 {
							if !emit([]byte(strings.Repeat("a", i) + x + strings.Repeat("b", n-i) + x)) {
								return
							}
						}
					}
				}
				for _, n := range around(7, tier(tr, 13, 16)) {
					for _, x := range []string{`\n`, `\u00e9`, `\ud83d\ude00`, `\\`, `\z`} {
						for i := 1; i <= len(x); i++ {
							if !emit([]byte(strings.Repeat("a", n)+x[:i])) || !emit([]byte(x+strings.Repeat("a", n)+x[:i])) {
								return
							}
						}
						for _, i := range append([]int{0, 1, n / 2, n - 1, n}, around(3, 16)...) {
							if i > n {
								break
							}
							if !emit([]byte(strings.Repeat("a", i) + x + strings.Repeat("b", n-i))) {
								return
							}
						}
						if !emit([]byte(strings.Repeat(x, n))) {
							return
						}
					}
				}
			}, Check: func(t *core.T, c []byte) { unescapeOne(t, string(c), true) }},
	}
}
