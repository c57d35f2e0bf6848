package checks

// C24: the line encoder. A sequence of values is encoded to a writer whose calls succeed or fail by a pattern; the model knows
// the line of every value (written out here, not computed by the library) and which values cannot be encoded.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/alxarch/njson/unjson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C24", Level: "exhaustive", Families: c24,
		Assumptions: []string{
			"what a value's own append method appends has no line feeds outside strings",
			"the result of a call whose writer breaks the rules of io.Writer (short write without an error) is not constrained; later lines are",
			"an encoder is not used again from within its own call",
		}})
}

type lineRec struct {
	A int
	B string
	C interface{}
}

// okAppender appends its text; failAppender appends half a value and fails; and so on.
type okAppender struct{ s string }

func (a okAppender) AppendJSON(out []byte) ([]byte, error) { return append(out, a.s...), nil }

type failAppender struct{ s string }

func (a failAppender) AppendJSON(out []byte) ([]byte, error) {
	return append(out, a.s...), errors.New("append fails")
}

type nilAppender struct{}

func (nilAppender) AppendJSON(out []byte) ([]byte, error) { return nil, errors.New("append fails") }

type panicAppender struct{ s string }

func (a panicAppender) AppendJSON(out []byte) ([]byte, error) {
	_ = append(out, a.s...)
	panic("append panics")
}

type jsonText struct {
	s   string
	err error
}

func (j jsonText) MarshalJSON() ([]byte, error) { return []byte(j.s), j.err }

type textVal struct {
	s   string
	err error
}

func (x textVal) MarshalText() ([]byte, error) { return []byte(x.s), x.err }

// nestedAppender uses the library while it is being encoded.
type nestedAppender struct{ n int }

func (a nestedAppender) AppendJSON(out []byte) ([]byte, error) {
	var b bytes.Buffer
	e := unjson.NewLineEncoder(&b)
	for i := 0; i <= a.n; i++ {
		if err := e.Encode([]int{i, 7777777}); err != nil {
			return out, err
		}
	}
	_ = e.Encode(make(chan int))
	s := strings.Replace(strings.TrimSuffix(b.String(), "\n"), "\n", ",", -1)
	return append(append(append(out, '['), s...), ']'), nil
}

// lineValDef is a value to encode: make builds it for the k-th step, want is its line or "" if it cannot be encoded.
type lineValDef struct {
	name   string
	make   func(k int) interface{}
	want   func(k int) string
	panics bool
}

func fixedLine(name string, v interface{}, want string) lineValDef {
	return lineValDef{name: name, make: func(int) interface{} { return v }, want: func(int) string { return want }}
}

var longText = strings.Repeat("long ", 900)

var lineVals = []lineValDef{
	fixedLine("int", 1, "1"),
	fixedLine("string", "a\nb\r\"\\", `"a\nb\r\"\\"`),
	fixedLine("struct", lineRec{1, "x", []interface{}{true}}, `{"A":1,"B":"x","C":[true]}`),
	fixedLine("pointer", &lineRec{}, `{"A":0,"B":"","C":null}`),
	fixedLine("nil", nil, "null"),
	fixedLine("nil pointer", (*lineRec)(nil), "null"),
	fixedLine("slice", []interface{}{1.5, "x", nil}, `[1.5,"x",null]`),
	fixedLine("long", longText, `"`+longText+`"`),
	fixedLine("chan", make(chan int), ""),
	fixedLine("NaN at the end", []interface{}{"first", math.NaN()}, ""),
	fixedLine("NaN in struct", lineRec{5, "begin", math.NaN()}, ""),
	fixedLine("appender", okAppender{`{"own":1}`}, `{"own":1}`),
	fixedLine("failing appender", failAppender{`{"half":`}, ""),
	fixedLine("failing long appender", failAppender{longText}, ""),
	fixedLine("appender giving nil", nilAppender{}, ""),
	{"panicking appender", func(int) interface{} { return panicAppender{`{"panic":`} }, func(int) string { return "" }, true},
	fixedLine("marshaler with line feeds", jsonText{"{\n \"a\": [\r\n1 ]\n}\n", nil}, `{"a":[1]}`),
	fixedLine("failing marshaler", jsonText{`{"a":1}`, errors.New("marshal fails")}, ""),
	fixedLine("marshaler of no JSON", jsonText{"{\"a\":\n1", nil}, ""),
	fixedLine("text marshaler", textVal{"x\ny", nil}, `"x\ny"`),
	fixedLine("failing text marshaler", textVal{"x", errors.New("text fails")}, ""),
	fixedLine("element fails", []interface{}{"first", lineRec{1, "x", failAppender{"[["}}}, ""),
	{"nested use", func(k int) interface{} { return nestedAppender{k} }, func(k int) string {
		s := "["
		for i := 0; i <= k; i++ {
			if i > 0 {
				s += ","
			}
			s += fmt.Sprintf("[%d,7777777]", i)
		}
		return s + "]"
	}, false},
	{"step", func(k int) interface{} { return map[string]interface{}{"k": k} }, func(k int) string { return fmt.Sprintf(`{"k":%d}`, k) }, false},
}

// behaviours of the writer
const (
	wrOK     = iota
	wrNone   // fails before it takes anything
	wrHalf   // fails after half
	wrAll    // takes all and fails
	wrSilent // takes half and says nothing
	wrNested // uses another encoder, then takes all
	wrModes
)

var wrNames = []string{"ok", "fails at once", "fails halfway", "fails after all", "short without error", "encodes elsewhere first"}

type lineWriter struct {
	mode  byte
	calls [][]byte
	errs  []error
}

type writerErr struct{ n int }

func (e *writerErr) Error() string { return fmt.Sprintf("writer error %d", e.n) }

func (w *lineWriter) Write(p []byte) (int, error) {
	if w.mode == wrNested {
		var b bytes.Buffer
		_ = unjson.NewLineEncoder(&b).Encode([]string{"other", "stream"})
	}
	w.calls = append(w.calls, append([]byte{}, p...))
	err := &writerErr{len(w.errs)}
	w.errs = append(w.errs, nil)
	n := len(p)
	switch w.mode {
	case wrNone:
		n = 0
	case wrHalf, wrSilent:
		n /= 2
	case wrAll:
	default:
		return n, nil
	}
	if w.mode == wrSilent {
		return n, nil
	}
	w.errs[len(w.errs)-1] = err
	return n, err
}

var lineTyped = []reflect.Type{nil, reflect.TypeOf(0), reflect.TypeOf(lineRec{}), reflect.TypeOf([]interface{}(nil)), reflect.TypeOf(jsonText{})}

var lineEncoders = func() []unjson.Encoder {
	out := make([]unjson.Encoder, len(lineTyped))
	for i, typ := range lineTyped {
		if typ != nil {
			e, err := unjson.NewTypeEncoder(typ, unjson.DefaultOptions())
			if err != nil {
				panic(err)
			}
			out[i] = e
		}
	}
	return out
}()

// typedFits tells if the typed encoder takes x.
func typedFits(typ reflect.Type, x interface{}) bool {
	if typ == nil {
		return true
	}
	xt := reflect.TypeOf(x)
	return xt == typ || xt == reflect.PtrTo(typ)
}

// lineHistory: c = typed mode, encoders, then per step value and writer behaviour. Steps alternate between the encoders, which
// share the writer.
func lineHistory(t *core.T, c []byte) {
	t.StateBytes(c)
	w := &lineWriter{}
	encs := make([]*unjson.LineEncoder, c[1])
	for i := range encs {
		encs[i] = unjson.NewLineEncoder(w)
		if c[0] != 0 {
			encs[i].Encoder = lineEncoders[c[0]]
		}
	}
	var stream bytes.Buffer
	var good []string
	steps := c[2:]
	for k := 0; k*2 < len(steps); k++ {
		t.Steps(1)
		def := &lineVals[steps[2*k]]
		w.mode = steps[2*k+1]
		x := def.make(k)
		before := len(w.calls)
		var err error
		panicked := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if !def.panics {
						panic(r)
					}
					panicked = true
				}
			}()
			err = encs[k%len(encs)].Encode(x)
		}()
		calls := w.calls[before:]
		want := def.want(k)
		if !typedFits(lineTyped[c[0]], x) {
			want = ""
		}
		if want == "" {
			if len(calls) != 0 {
				t.Failf("step %d of %s: %d writes, first %q, for a value that cannot be encoded", k, showLineHistory(c), len(calls), clip(string(calls[0])))
			}
			if err == nil && !panicked {
				t.Failf("step %d of %s: no error for a value that cannot be encoded", k, showLineHistory(c))
			}
			continue
		}
		want += "\n"
		if len(calls) != 1 {
			t.Failf("step %d of %s: %d writes, want 1", k, showLineHistory(c), len(calls))
		}
		if string(calls[0]) != want {
			t.Failf("step %d of %s: writes %q, want %q", k, showLineHistory(c), clip(string(calls[0])), clip(want))
		}
		werr := w.errs[len(w.errs)-1]
		switch {
		case werr != nil && !errors.Is(err, werr):
			t.Failf("step %d of %s: writer's error %v, returned %v", k, showLineHistory(c), werr, err)
		case werr == nil && err != nil && w.mode != wrSilent:
			t.Failf("step %d of %s: error %v though the writer took everything", k, showLineHistory(c), err)
		case werr == nil && w.mode != wrSilent:
			stream.Write(calls[0])
			good = append(good, want)
		}
	}
	// the stream of the lines that were taken reads back as the values
	d := unjson.NewLineDecoder(&stream)
	for i, line := range good {
		var x interface{}
		if err := d.Decode(&x); err != nil {
			t.Failf("%s: reading line %d back: %v", showLineHistory(c), i, err)
		}
		m, _, _ := model.Parse(line)
		if v, res := generic(m); res == encOK && !reflect.DeepEqual(x, v) {
			t.Failf("%s: line %d reads back as %#v", showLineHistory(c), i, x)
		}
	}
	var x interface{}
	if err := d.Decode(&x); err != io.EOF {
		t.Failf("%s: more lines than values", showLineHistory(c))
	}
}

func showLineHistory(c []byte) string {
	s := fmt.Sprintf("%d encoders", c[1])
	if c[0] != 0 {
		s += fmt.Sprintf(" of %v", lineTyped[c[0]])
	}
	for k := 2; k+1 < len(c); k += 2 {
		s += fmt.Sprintf("; %s, writer %s", lineVals[c[k]].name, wrNames[c[k+1]])
	}
	return s
}

// lineMutate encodes one variable while it changes between the calls.
func lineMutate(t *core.T, c []byte) {
	t.StateBytes(c)
	w := &lineWriter{}
	e := unjson.NewLineEncoder(w)
	rec := &lineRec{}
	list := []int{0, 0, 0}
	m := map[string]int{}
	text := []byte("ab")
	for k, op := range c {
		t.Steps(1)
		w.mode = wrOK
		var x interface{}
		var want string
		switch op >> 2 {
		case 0:
			rec.A += k + 1
			x, want = rec, fmt.Sprintf(`{"A":%d,"B":"","C":null}`, rec.A)
		case 1:
			list[k%3]++
			x, want = list, strings.Replace(fmt.Sprint(list), " ", ",", -1)
		case 2:
			m["k"] += 10
			x, want = m, fmt.Sprintf(`{"k":%d}`, m["k"])
		default:
			text[k&1]++
			x, want = json.RawMessage(`"`+string(text)+`"`), `"`+string(text)+`"`
		}
		if op&3 != 0 {
			w.mode = []byte{wrOK, wrHalf, wrAll, wrNone}[op&3]
		}
		_ = e.Encode(x)
		if len(w.calls) != k+1 || string(w.calls[k]) != want+"\n" {
			t.Failf("step %d of % x: writes %q, want %q", k, c, w.calls, want)
		}
	}
}

func c24(tr string) []core.Family {
	// histories emits all histories of n steps with the given values and writer behaviours.
	histories := func(pre []byte, n int, vals int, modes []byte, emit func([]byte) bool) bool {
		ok := true
		var rec func(p []byte, left int)
		rec = func(p []byte, left int) {
			if left == 0 {
				ok = ok && emit(append([]byte{}, p...))
				return
			}
			for v := 0; v < vals && ok; v++ {
				for _, m := range modes {
					rec(append(p[:len(p):len(p)], byte(v), m), left-1)
				}
			}
		}
		rec(pre, n)
		return ok
	}
	all := []byte{wrOK, wrNone, wrHalf, wrAll, wrSilent, wrNested}
	fams := []core.Family{
		{Name: "steps", Rule: fmt.Sprintf("every history of up to 2 steps over %d values and 6 behaviours of the writer, no and 4 typed encoders, one and two encoders on one writer", len(lineVals)),
			Enum: func(emit func([]byte) bool) {
				for typed := range lineTyped {
					for n := 0; n <= 2; n++ {
						for encs := byte(1); encs <= 2; encs++ {
							if !histories([]byte{byte(typed), encs}, n, len(lineVals), all, emit) {
								return
							}
						}
					}
				}
			}, Check: lineHistory, Show: showLineHistory},
		{Name: "three", Rule: "every history of 3 steps, 3 behaviours of the writer", Enum: func(emit func([]byte) bool) {
			modes := []byte{wrOK, wrHalf, wrSilent}
			if tr == "thorough" {
				modes = all
			}
			for encs := byte(1); encs <= 2; encs++ {
				if !histories([]byte{0, encs}, 3, len(lineVals), modes, emit) {
					return
				}
			}
		}, Check: lineHistory, Show: showLineHistory},
		longLines(tr),
		{Name: "changing", Rule: "every history of up to 4 encodings of 4 variables that change between the calls, 4 behaviours of the writer", Enum: func(emit func([]byte) bool) {
			ok := true
			var rec func(p []byte, left int)
			rec = func(p []byte, left int) {
				if ok = ok && emit(append([]byte{}, p...)); !ok || left == 0 {
					return
				}
				for i := byte(0); i < 16 && ok; i++ {
					rec(append(p[:len(p):len(p)], i), left-1)
				}
			}
			rec(nil, tier(tr, 4, 5))
		}, Check: lineMutate, Show: func(c []byte) string { return fmt.Sprintf("% x", c) }},
	}
	if tr == "thorough" {
		fams = append(fams, core.Family{Name: "four", Rule: "every history of 4 steps, two behaviours of the writer", Enum: func(emit func([]byte) bool) {
			histories([]byte{0, 1}, 4, len(lineVals), []byte{wrOK, wrHalf}, emit)
		}, Check: lineHistory, Show: showLineHistory})
	}
	return fams
}
