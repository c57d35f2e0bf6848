package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"

	"github.com/alxarch/njson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C15", Level: "model_checking", Families: c15, Quick: 200, Thorough: 800,
		Assumptions: []string{"Unmarshalers, writers and appenders keep their side of the contract: they do not use the bytes they were given after they return, and an appender returns the buffer it was given, extended (or any buffer together with an error)."}})
}

// ---- exact bytes

func bridgeNode(t *core.T, n njson.Node, v *model.Val) {
	want := v.Compact()
	for _, e := range []error{nil, errCB, io.EOF} {
		calls, got := 0, ""
		err := n.WrapUnmarshalJSON(unmarshalFunc(func(b []byte) error {
			calls++
			got = string(b)
			for i := range b {
				b[i] = '#' // the bytes belong to the callee while it runs
			}
			_ = append(b, "####"...)
			return e
		}))
		if calls != 1 || got != want || err != e {
			t.Failf("%s: UnmarshalJSON is called %d times with %q; error %v, want %q and %v", want, calls, clip(got), err, clip(want), e)
		}
		calls, got = 0, ""
		err = n.WrapUnmarshalText(textFunc(func(b []byte) error {
			calls++
			got = string(b)
			for i := range b {
				b[i] = '#'
			}
			_ = append(b, "####"...)
			return e
		}))
		if v.Kind == model.String {
			if s := model.Unescape(v.Raw); calls != 1 || got != s || err != e {
				t.Failf("%s: UnmarshalText is called %d times with %q; error %v, want %q and %v", want, calls, got, err, s, e)
			}
		} else if calls != 0 || err == nil || err == errCB {
			t.Failf("%s: UnmarshalText is called %d times with %q; error %v", want, calls, got, err)
		}
		t.Runs(2)
	}
	mustJSON(t, n, []byte(want), "after the callbacks")
	for i := range v.Vals {
		it := n.Values()
		for j := 0; j <= i; j++ {
			it.Next()
		}
		bridgeNode(t, it.Value(), v.Vals[i])
	}
}

func bridgeCheck(t *core.T, c []byte) {
	v, _, merr := model.Parse(string(c))
	var d njson.Document
	n, _, err := d.Parse(string(c))
	if merr != nil || err != nil {
		t.Failf("parse %q: %v", c, err)
	}
	t.State(v.Compact())
	t.Steps(1)
	bridgeNode(t, n, v)
	// the same through encoding/json's own types
	var raw json.RawMessage
	if err := n.WrapUnmarshalJSON(&raw); err != nil || string(raw) != v.Compact() {
		t.Failf("RawMessage of %s is %s, %v", c, raw, err)
	}
}

// ---- printing

// faultWriter accepts up to room bytes, then behaves as told.
type faultWriter struct {
	got   []byte
	calls int
	room  int
	err   error
	pan   bool
	hook  func()
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	n := len(p)
	if w.room >= 0 && n > w.room {
		n = w.room
	}
	w.got = append(w.got, p[:n]...)
	if w.hook != nil {
		w.hook()
	}
	if w.pan {
		panic(errCB)
	}
	return n, w.err
}

// testAppender appends text, or fails in a chosen way.
type testAppender struct {
	text string
	mode int
	got  string
	hook func()
}

const (
	appOK     = iota
	appErr    // error, keeps what was appended
	appErrNil // error, nil buffer
	appPanic
	appGrow // appends far more than the pooled buffer holds
	appErrOther
)

func (a *testAppender) AppendJSON(dst []byte) ([]byte, error) {
	if len(dst) != 0 {
		a.got = string(dst)
	}
	dst = append(dst, a.text...)
	if a.hook != nil {
		a.hook()
	}
	switch a.mode {
	case appErr:
		return dst, errCB
	case appErrNil:
		return nil, errCB
	case appPanic:
		panic(errCB)
	case appGrow:
		return append(dst, strings.Repeat(" ", 5000)...), nil
	case appErrOther:
		return make([]byte, 3), errCB
	}
	return dst, nil
}

func printCheck(t *core.T, c []byte) {
	text := strings.Repeat("ab", int(c[0])*8) + "z"
	if c[0] == 0 {
		text = ""
	}
	mode, room, fault := int(c[1]), int(c[2])-1, int(c[3])
	want := text
	if mode == appGrow {
		want += strings.Repeat(" ", 5000)
	}
	w := &faultWriter{room: room}
	switch fault {
	case 1:
		w.err = errCB
	case 2:
		w.err = io.ErrShortWrite
	case 3:
		w.pan = true
	}
	a := &testAppender{text: text, mode: mode}
	var n int
	var err error
	paniced := func() (p interface{}) {
		defer func() { p = recover() }()
		n, err = njson.PrintJSON(w, a)
		return nil
	}()
	t.Runs(1)
	t.Steps(1)
	t.State(fmt.Sprint(c))
	if a.got != "" {
		t.Failf("the appender is given a buffer holding %q", clip(a.got))
	}
	if mode == appPanic || (fault == 3 && (mode == appOK || mode == appGrow)) {
		if paniced != errCB {
			t.Failf("the callback's panic becomes %v", paniced)
		}
		return
	}
	if paniced != nil {
		t.Failf("panic: %v", paniced)
	}
	if mode == appErr || mode == appErrNil || mode == appErrOther {
		if w.calls != 0 || err != errCB || n != 0 {
			t.Failf("serialising fails, yet %d writes of %q; result %d, %v", w.calls, clip(string(w.got)), n, err)
		}
		return
	}
	if room >= 0 && room < len(want) {
		want = want[:room]
	}
	if w.calls != 1 || string(w.got) != want || n != len(want) || err != w.err {
		t.Failf("%d writes of %d bytes (%q), result %d, %v; want one of %d bytes and %v", w.calls, len(w.got), clip(string(w.got)), n, err, len(want), w.err)
	}
}

func printNodeCheck(t *core.T, c []byte) {
	v, _, merr := model.Parse(string(c))
	var d njson.Document
	n, _, err := d.Parse(string(c))
	if merr != nil || err != nil {
		t.Failf("parse %q: %v", c, err)
	}
	t.Steps(1)
	want := v.Compact()
	t.State(want)
	for room := -1; room <= len(want); room++ {
		for _, e := range []error{nil, errCB} {
			w := &faultWriter{room: room, err: e}
			k, err := n.PrintJSON(w)
			exp := want
			if room >= 0 && room < len(exp) {
				exp = exp[:room]
			}
			if w.calls != 1 || string(w.got) != exp || k != len(exp) || err != e {
				t.Failf("printing %s to a writer taking %d bytes (error %v): %d writes, %q, result %d, %v", want, room, e, w.calls, w.got, k, err)
			}
			w = &faultWriter{room: room, err: e}
			if k, err := njson.PrintJSON(w, &d); w.calls != 1 || string(w.got) != exp || k != len(exp) || err != e {
				t.Failf("printing the document %s: %d writes, %q, result %d, %v", want, w.calls, w.got, k, err)
			}
			t.Runs(2)
		}
	}
	for _, miss := range []njson.Node{n.Get("missing"), n.Index(-3), {}} {
		w := &faultWriter{room: -1}
		if k, err := miss.PrintJSON(w); w.calls != 0 || k != 0 || err == nil {
			t.Failf("printing a missing value: %d writes, %q, result %d, %v", w.calls, w.got, k, err)
		}
	}
	var e njson.Document
	w := &faultWriter{room: -1}
	if k, err := njson.PrintJSON(w, &e); w.calls != 0 || k != 0 || err == nil {
		t.Failf("printing an empty document: %d writes, %q, result %d, %v", w.calls, w.got, k, err)
	}
}

// ---- nesting: no internal buffer is visible to two users

// A call tree: operation, what the callback does at the end, and the calls made inside the callback.
type call struct {
	op    byte // 0 JSON, 1 text, 2 print (nested in the writer), 3 print (nested in the appender)
	end   byte // 0 ok, 1 error, 2 panic (recovered one level up)
	inner []*call
}

// callTrees enumerates all trees with exactly n calls as forests of up to n calls.
func forests(n int) [][]*call {
	if n == 0 {
		return [][]*call{nil}
	}
	var out [][]*call
	for first := 1; first <= n; first++ {
		for _, in := range forests(first - 1) {
			for _, rest := range forests(n - first) {
				for op := byte(0); op < 4; op++ {
					for end := byte(0); end < 3; end++ {
						out = append(out, append([]*call{{op, end, in}}, rest...))
					}
				}
			}
		}
	}
	return out
}

func encodeCalls(f []*call) (b []byte) {
	for _, c := range f {
		b = append(b, '(', '0'+c.op, "oep"[c.end])
		b = append(b, encodeCalls(c.inner)...)
		b = append(b, ')')
	}
	return
}

func decodeCalls(b []byte) (f []*call, rest []byte) {
	for len(b) > 0 && b[0] == '(' {
		c := &call{op: b[1] - '0', end: byte(strings.IndexByte("oep", b[2]))}
		c.inner, b = decodeCalls(b[3:])
		b = b[1:]
		f = append(f, c)
	}
	return f, b
}

type nest struct {
	t   *core.T
	n   njson.Node
	cnt int
	log []string
	bad string
}

// owned is what a callback does with its bytes: check, scribble, run inner calls, check again.
func (s *nest) owned(b []byte, want string, c *call, depth int) {
	if string(b) != want {
		s.fail("call %d at depth %d sees %q, want %q", s.cnt, depth, clip(string(b)), want)
	}
	mark := fmt.Sprintf("<%d@%d>", s.cnt, depth)
	if c.op < 2 { // the callee may scribble on what it was handed
		b = append(b, mark...)
		copy(b, strings.Repeat("!", len(want)))
		want = strings.Repeat("!", len(want)) + mark
	}
	s.forest(c.inner, depth+1)
	if string(b) != want {
		s.fail("the bytes of a callback at depth %d change from %q to %q while inner calls run", depth, want, clip(string(b)))
	}
}

func (s *nest) fail(f string, a ...interface{}) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, a...)
	}
}

func (s *nest) forest(f []*call, depth int) {
	for _, c := range f {
		s.one(c, depth)
	}
}

func (s *nest) one(c *call, depth int) {
	s.cnt++
	id := s.cnt
	var ret error
	if c.end == 1 {
		ret = fmt.Errorf("error of call %d", id)
	}
	finish := func() error {
		if c.end == 2 {
			panic(fmt.Sprintf("panic of call %d", id))
		}
		return ret
	}
	var err error
	text := fmt.Sprintf("text %d %s", id, strings.Repeat("*", id*3))
	var p interface{}
	ran := false
	func() {
		defer func() { p = recover() }()
		switch c.op {
		case 0:
			x, want := s.n, `[{"a":"b"},12]`
			if id%2 == 0 {
				x, want = s.n.Index(0), `{"a":"b"}`
			}
			err = x.WrapUnmarshalJSON(unmarshalFunc(func(b []byte) error {
				ran = true
				s.owned(b, want, c, depth)
				return finish()
			}))
		case 1:
			err = s.n.Index(0).Get("a").WrapUnmarshalText(textFunc(func(b []byte) error {
				ran = true
				s.owned(b, "b", c, depth)
				return finish()
			}))
		case 2:
			_, err = njson.PrintJSON(writerFunc(func(b []byte) (int, error) {
				ran = true
				s.owned(b, text, c, depth)
				return len(b), finish()
			}), &testAppender{text: text})
		case 3:
			_, err = njson.PrintJSON(writerFunc(func(b []byte) (int, error) {
				if string(b) != text+text {
					s.fail("printing at depth %d writes %q, want %q", depth, clip(string(b)), text+text)
				}
				if c.end != 0 {
					s.fail("a failed serialisation is written")
				}
				return len(b), nil
			}), appendFunc(func(b []byte) ([]byte, error) {
				ran = true
				if len(b) != 0 {
					s.fail("an appender is given %q", clip(string(b)))
				}
				b = append(b, text...)
				s.owned(b, text, c, depth)
				b = append(b, text...)
				if e := finish(); e != nil {
					return b, e
				}
				return b, nil
			}))
		}
	}()
	s.t.Steps(1)
	s.t.Runs(1)
	if !ran {
		s.fail("the callback of call %d is not run: %v", id, err)
	}
	if c.end == 2 {
		if p != fmt.Sprintf("panic of call %d", id) {
			s.fail("the panic of call %d becomes %v", id, p)
		}
		return
	}
	if p != nil {
		s.fail("call %d panics: %v", id, p)
	}
	if err != ret {
		s.fail("the error of call %d is %v, want %v", id, err, ret)
	}
}

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(b []byte) (int, error) { return f(b) }

type appendFunc func([]byte) ([]byte, error)

func (f appendFunc) AppendJSON(b []byte) ([]byte, error) { return f(b) }

func nestCheck(t *core.T, c []byte) {
	f, _ := decodeCalls(c)
	var d njson.Document
	n, _, _ := d.Parse(`[{"a":"b"},12]`)
	s := &nest{t: t, n: n}
	s.forest(f, 0)
	// two more users at once afterwards: nobody shares with anybody
	s.forest([]*call{{0, 0, []*call{{2, 0, []*call{{1, 0, []*call{{3, 0, nil}}}}}}}}, 0)
	t.StateBytes(c)
	if s.bad != "" {
		t.Failf("%s", s.bad)
	}
	mustJSON(t, n, []byte(`[{"a":"b"},12]`), "after the callbacks")
}

func raceBridge(t *core.T, c []byte) {
	fa, fb := raceForests[c[0]], raceForests[c[1]]
	var d njson.Document
	n, _, _ := d.Parse(`[{"a":"b"},12]`)
	var ss [2]*nest
	var wg sync.WaitGroup
	for i, f := range [][]*call{fa, fb} {
		ss[i] = &nest{t: &core.T{}, n: n}
		wg.Add(1)
		go func(i int, f []*call) { defer wg.Done(); ss[i].forest(f, 0); ss[i].forest(f, 0) }(i, f)
	}
	wg.Wait()
	t.Runs(2)
	t.Steps(2)
	t.State(string(encodeCalls(fa)) + "|" + string(encodeCalls(fb)))
	for _, s := range ss {
		if s.bad != "" {
			t.Failf("%s with %s at the same time: %s", encodeCalls(fa), encodeCalls(fb), s.bad)
		}
	}
}

var raceForests = func() (out [][]*call) {
	out = append(out, forests(1)...)
	for _, f := range forests(2) {
		if len(f) == 1 && f[0].end == 0 {
			out = append(out, f)
		}
	}
	return
}()

func c15(tr string) []core.Family {
	return []core.Family{
		{Name: "bytes", Rule: "every node of every document with up to N nodes over 9 scalars, [] and {} and 3 keys: bytes handed to UnmarshalJSON and UnmarshalText, 3 results of the callback",
			Enum: func(emit func([]byte) bool) {
				treeDocs(tier(tr, 4, 5), []string{`""`, `"a\n\u00e9"`, `"\\"`, `-1.5e+3`, "true", "false", "null", "0", `"\ud83d\ude00"`}, []string{"", "a", `\"`}, emitS(emit))
			}, Check: bridgeCheck},
		{Name: "strings", Rule: "every string body of up to N pieces as value and key",
			Enum: func(emit func([]byte) bool) {
				bodies(unescPieces, tier(tr, 2, 3), func(s string) bool {
					if !model.ValidBody(s) {
						return true
					}
					return emit([]byte(`["`+s+`"]`)) && emit([]byte(`{"`+s+`":["`+s+`"]}`))
				})
			}, Check: bridgeCheck},
		{Name: "sizes", Rule: "documents with a text of every length up to N (beyond every pooled buffer)",
			Enum: func(emit func([]byte) bool) {
				for n := 0; n <= tier(tr, 5000, 20000); n += 1 + n/64 {
					for _, s := range []string{`"` + strings.Repeat("s", n) + `"`, `["` + strings.Repeat(`\n`, n) + `"]`, strings.Repeat("[", n%500) + strings.Repeat("]", n%500)} {
						if s != "" && !emit([]byte(s)) {
							return
						}
					}
				}
			}, Check: bridgeCheck},
		{Name: "print", Rule: "printing a test appender: text lengths 0..4100, 6 appender outcomes, writers taking 0..9 bytes or all, 4 writer outcomes",
			Enum: func(emit func([]byte) bool) {
				for l := 0; l < 256; l += 1 + l/8 {
					for m := 0; m < 6; m++ {
						for r := 0; r < 11; r++ {
							for f := 0; f < 4; f++ {
								if !emit([]byte{byte(l), byte(m), byte(r), byte(f)}) {
									return
								}
							}
						}
					}
				}
			}, Check: printCheck, Show: func(c []byte) string {
				return fmt.Sprintf("text %d, appender %d, writer room %d, writer outcome %d", c[0], c[1], int(c[2])-1, c[3])
			}},
		printLarge(tr),
		{Name: "print-nodes", Rule: "printing every document with up to N nodes to writers that stop after every number of bytes, with and without error",
			Enum: func(emit func([]byte) bool) {
				treeDocs(tier(tr, 4, 5), []string{`""`, `"a\n"`, `-1.5`, "true", "null"}, []string{"", "a"}, emitS(emit))
			}, Check: printNodeCheck},
		{Name: "nesting", Rule: "every forest of up to N calls (to JSON, to text, print nested in writer, print nested in appender) each ending well, with an error or a panic, nested in callbacks in every way; every callback checks that its bytes stay its own",
			Enum: func(emit func([]byte) bool) {
				for n := 1; n <= tier(tr, 4, 4); n++ {
					for _, f := range forests(n) {
						if !emit(encodeCalls(f)) {
							return
						}
					}
				}
			}, Check: nestCheck},
		{Name: "race", Variant: "race", Rule: fmt.Sprintf("every pair of %d call forests in two goroutines under the race detector", len(raceForests)),
			Enum: func(emit func([]byte) bool) {
				for i := range raceForests {
					for j := i; j < len(raceForests); j++ {
						if !emit([]byte{byte(i), byte(j)}) {
							return
						}
					}
				}
			}, Check: raceBridge, Show: func(c []byte) string {
				return string(encodeCalls(raceForests[c[0]])) + " with " + string(encodeCalls(raceForests[c[1]]))
			}},
	}
}

var _ = errors.New
