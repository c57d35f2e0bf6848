package checks

// Families for sizes where buffers, short cuts and small integers end.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/njsontest"
	"github.com/alxarch/njson/unjson"

	"verif/mc/core"
)

// ---------------------------------------------------------------- C08: repeated names in large objects

func dupEnum(tr string) func(emit func([]byte) bool) {
	return func(emit func([]byte) bool) {
		for _, n := range around(4, tier(tr, 10, 12)) {
			places := []int{0, 1, 2, n / 2, n - 2, n - 1}
			for _, i := range append(places, around(3, 11)...) {
				for _, j := range places {
					if i < j && j < n && !emit([]byte(fmt.Sprintf("%d %d %d", n, i, j))) {
						return
					}
				}
			}
		}
	}
}

// dupCheck: an object of n members of which i and j have one name.
func dupCheck(t *core.T, c []byte) {
	var n, i, j int
	fmt.Sscan(string(c), &n, &i, &j)
	key := func(x int) string {
		if x == j {
			x = i
		}
		return fmt.Sprintf("key%d", x)
	}
	text := "{" + strings.Join(seqS(n, func(x int) string { return fmt.Sprintf("%q:%d", key(x), x) }), ",") + "}"
	t.State(text)
	var d njson.Document
	r, _, err := d.Parse(text)
	if err != nil {
		t.Failf("%v", err)
		return
	}
	built := d.Object()
	for x := 0; x < n; x++ {
		built.Set(key(x), d.Number(float64(x)))
	}
	for x := 0; x < n; x++ {
		t.Steps(1)
		want := fmt.Sprint(x)
		if x == j {
			want = fmt.Sprint(i) // the first one is read
		}
		for k, got := range []string{r.Get(key(x)).Raw(), r.Lookup(key(x)).Raw(), r.Lookup("key" + fmt.Sprint(x)).Raw()} {
			if k == 2 && x == j {
				want = "" // no such name
			}
			if got != want {
				t.Failf("reading %q in way %d gives %q, want %q", key(x), k, got, want)
			}
		}
	}
	if g := r.Get("key"); g.Type() != njson.TypeInvalid {
		t.Failf("a missing name reads %q", g.Raw())
	}
	if m, ok := r.ToInterface(); !ok || len(m.(map[string]interface{})) != n-1 || m.(map[string]interface{})[key(j)] != float64(j) {
		t.Failf("conversion: %v, the last of two members does not count", ok)
	}
	// built one after the other the second replaces the first
	if got := built.Get(key(j)).Raw(); got != fmt.Sprint(j) {
		t.Failf("after setting it twice %q reads %q", key(j), got)
	}
	// setting replaces the first
	r.Set(key(j), d.Text("new"))
	r.Set("more", d.True())
	mustJSON(t, r, []byte("{"+strings.Join(seqS(n, func(x int) string {
		if x == i {
			return fmt.Sprintf(`%q:"new"`, key(x))
		}
		return fmt.Sprintf("%q:%d", key(x), x)
	}), ",")+`,"more":true}`), "after setting a repeated name")
}

// ---------------------------------------------------------------- C15: printing

func printLarge(tr string) core.Family {
	sizes := append(around(12, tier(tr, 17, 22)), 100000)
	return core.Family{Name: "print-large", Rule: "printing texts around powers of two to 128 KiB (thorough 4 MiB), by appender and by node, to writers that take all, nothing, half or all but one byte, with and without error",
		Enum: func(emit func([]byte) bool) {
			for _, n := range sizes {
				for k := 0; k < 16; k++ {
					if !emit([]byte(fmt.Sprintf("%d %d", n, k))) {
						return
					}
				}
			}
		}, Check: func(t *core.T, c []byte) {
			var n, k int
			fmt.Sscan(string(c), &n, &k)
			text := `"` + strings.Repeat("abcdefg", n/7+1)[:n-2] + `"`
			w := &faultWriter{room: []int{-1, 0, n / 2, n - 1}[k&3]}
			if k&4 != 0 {
				w.err = errCB
			}
			var a njson.Appender = &testAppender{text: text}
			if k&8 != 0 {
				var d njson.Document
				r, _, err := d.Parse(text)
				if err != nil {
					t.Failf("%v", err)
				}
				a = r
			}
			got, err := njson.PrintJSON(w, a)
			t.Runs(1)
			t.Steps(1)
			t.State(string(c))
			want := text
			if w.room >= 0 {
				want = text[:w.room]
			}
			if w.calls != 1 || string(w.got) != want || got != len(want) {
				t.Failf("%d writes of %d bytes in all (right: %v), %d reported, of %d", w.calls, len(w.got), string(w.got) == want, got, n)
			}
			if err != w.err && !(w.err == nil && err == io.ErrShortWrite && len(want) < n) {
				t.Failf("error %v, the writer's is %v", err, w.err)
			}
		}, Show: func(c []byte) string { return "length, way = " + string(c) }}
}

// ---------------------------------------------------------------- C21: many types

func manyTypes(tr string) core.Family {
	return core.Family{Name: "many", Timeout: 5 * time.Minute, Rule: "one cache asked for codecs of N types, then for all of them again in the same and the opposite order, N around powers of two",
		Enum: func(emit func([]byte) bool) {
			for _, n := range append([]int{1, 2, 10, 100, 1000}, around(4, tier(tr, 12, 14))...) {
				if !emit([]byte(fmt.Sprint(n))) {
					return
				}
			}
		}, Check: func(t *core.T, c []byte) {
			n := 0
			fmt.Sscan(string(c), &n)
			var cache unjson.Cache
			typ := func(i int) reflect.Type { return reflect.ArrayOf(i, reflect.TypeOf(0)) }
			bad := reflect.TypeOf(make(chan int))
			encs, decs := make([]unjson.Encoder, n), make([]unjson.Decoder, n)
			for round := 0; round < 3; round++ {
				for k := 0; k < n; k++ {
					i := k
					if round == 2 {
						i = n - 1 - k
					}
					e, err := cache.Encoder(typ(i))
					d, err2 := cache.Decoder(reflect.PtrTo(typ(i)))
					if err != nil || err2 != nil || e == nil || d == nil {
						t.Failf("round %d, type %d: %v, %v", round, i, err, err2)
						return
					}
					if round == 0 {
						encs[i], decs[i] = e, d
					} else if !sameCodec(e, encs[i]) || !sameCodec(d, decs[i]) {
						t.Failf("round %d: type %d of %d has another codec than before", round, i, n)
						return
					}
					t.Steps(2)
					if i&(i+1) == 0 || i&(i-1) == 0 || i < 20 {
						v := reflect.New(typ(i))
						b, err := e.Encode(nil, v.Elem().Interface())
						if want := "[" + strings.TrimSuffix(strings.Repeat("0,", i), ",") + "]"; err != nil || string(b) != want {
							t.Failf("round %d: the encoder of type %d gives %.40q, %v", round, i, b, err)
						}
						var doc njson.Document
						r, _, _ := doc.Parse("[" + strings.TrimSuffix(strings.Repeat("7,", i), ",") + "]")
						if err := d.Decode(v.Interface(), r); err != nil || i > 0 && v.Elem().Index(i-1).Int() != 7 {
							t.Failf("round %d: the decoder of type %d fails: %v", round, i, err)
						}
					}
				}
				if _, err := cache.Encoder(bad); err == nil {
					t.Failf("round %d: channels can be encoded", round)
				}
			}
			t.State(string(c))
		}, Show: func(c []byte) string { return string(c) + " types" }}
}

// ---------------------------------------------------------------- C24: long lines

func longLines(tr string) core.Family {
	return core.Family{Name: "long", Rule: "two or three lines of lengths around powers of two to 128 KiB (thorough 2 MiB) and a short one between, failing and working writers",
		Enum: func(emit func([]byte) bool) {
			sizes := append([]int{2}, around(6, tier(tr, 17, 21))...)
			for _, a := range sizes {
				for _, b := range []int{2, 100, 4096, 65537, a, a + 1} {
					for k := 0; k < 6; k++ {
						if !emit([]byte(fmt.Sprintf("%d %d %d", a, b, k))) {
							return
						}
					}
				}
			}
		}, Check: func(t *core.T, c []byte) {
			var a, b, k int
			fmt.Sscan(string(c), &a, &b, &k)
			w := &faultWriter{room: -1}
			e := unjson.NewLineEncoder(w)
			for step, n := range []int{a, 3, b, a} {
				w.room, w.err, w.calls, w.got = -1, nil, 0, nil
				text := strings.Repeat("x", n-2)
				line := `"` + text + "\"\n"
				if step == 0 || step == 2 {
					switch k % 3 {
					case 1:
						w.room, w.err = n/2, errCB
					case 2:
						w.room, w.err = 0, errCB
					}
				}
				var v interface{} = text
				if k > 2 {
					v = okAppender{line[:n]}
				}
				err := e.Encode(v)
				t.Steps(1)
				if w.room >= 0 {
					line = line[:w.room]
				}
				if err != w.err || w.calls != 1 || string(w.got) != line {
					t.Failf("step %d: error %v, want %v; %d writes of %d bytes (right: %v)", step, err, w.err, w.calls, len(w.got), string(w.got) == line)
				}
			}
			t.State(string(c))
		}, Show: func(c []byte) string { return "lengths a, b, way = " + string(c) }}
}

// ---------------------------------------------------------------- C28: large texts

type hbig string

func (h hbig) AppendJSON(out []byte) ([]byte, error) { return append(out, h...), nil }

type hbigU struct{ S string }

// UnmarshalNodeJSON keeps the text but for a byte that is wrong when the text says so.
func (h *hbigU) UnmarshalNodeJSON(n njson.Node) error {
	h.S = n.Unescaped()
	if i := strings.IndexByte(h.S, '!'); i >= 0 {
		return errors.New(h.S)
	}
	return nil
}

func largeHelpers(tr string) core.Family {
	return core.Family{Name: "large", Rule: "texts of lengths around powers of two to 64 KiB (thorough 1 MiB), right or with the first, the middle or the last byte wrong or one byte too long or short, JSON given in 5 ways, both helpers",
		Enum: func(emit func([]byte) bool) {
			for _, n := range around(3, tier(tr, 16, 20)) {
				for k := 0; k < 7*5*2; k++ {
					if !emit([]byte(fmt.Sprintf("%d %d", n, k))) {
						return
					}
				}
			}
		}, Check: func(t *core.T, c []byte) {
			var n, k int
			fmt.Sscan(string(c), &n, &k)
			right := []byte(strings.Repeat("abcdefg", n/7+1)[:n])
			given := append([]byte(nil), right...)
			diff := k % 7
			switch diff {
			case 1:
				given[0] = '-'
			case 2:
				given[n/2] = '-'
			case 3:
				given[n-1] = '-'
			case 4:
				given = append(given, 'x')
			case 5:
				given = given[:n-1]
			case 6:
				given[n/3] = '-'
			}
			pass := diff == 0
			js := `"` + string(right) + `"`
			var opt njsontest.Option
			switch k / 7 % 5 {
			case 0:
				opt = njsontest.JSON(js)
			case 1:
				opt = njsontest.JSON([]byte(js))
			case 2:
				opt = njsontest.JSON(func() ([]byte, error) { return []byte(js), nil })
			case 3:
				opt = njsontest.JSON(bytes.NewBufferString(js))
			case 4:
				opt = njsontest.JSON(io.Reader(&chunkReader{data: js, size: 1000, end: io.EOF}))
			}
			t.State(string(c))
			if k/35 == 0 {
				verdict(t, "AppendJSON", njsontest.AppendJSON(hbig(`"`+string(given)+`"`), opt), pass)
				return
			}
			verdict(t, "Unmarshal", njsontest.Unmarshal(&hbigU{string(given)}, opt), pass)
			// the same text in an error
			given = append([]byte("!"), given...)
			js = `"!` + string(right) + `"`
			verdict(t, "Unmarshal with an error", njsontest.Unmarshal(&hbigU{""}, njsontest.JSON(js), njsontest.Error(string(given))), pass || diff == 5)
		}, Show: func(c []byte) string { return "length, variant = " + string(c) }}
}
