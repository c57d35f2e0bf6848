package checks

// C28: the helpers of package njsontest, run inside a real testing.T on methods of every behaviour with every way to state what
// is expected.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"testing"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/njsontest"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Property{ID: "C28", Level: "exhaustive", Families: c28,
		Assumptions: []string{
			"an expected error value means that very error; wrapped errors are left open",
			"where an error is expected, what else the method produced does not count",
			"the function a helper returns is run once",
		}})
}

type helperReq struct {
	f  func(*testing.T)
	ok chan bool
}

var helperHost struct {
	once sync.Once
	ch   chan helperReq
}

// runT runs f as a test and tells if it passed and what it panicked with.
func runT(f func(*testing.T)) (passed bool, panicked interface{}) {
	h := &helperHost
	h.once.Do(func() {
		h.ch = make(chan helperReq)
		out, args := os.Stdout, os.Args
		null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		os.Stdout, os.Args = null, args[:1]
		go testing.Main(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "host", F: func(t *testing.T) {
			for r := range h.ch {
				r.ok <- t.Run("x", r.f)
			}
		}}}, nil, nil)
		r := helperReq{func(*testing.T) {}, make(chan bool)}
		h.ch <- r
		<-r.ok
		os.Stdout, os.Args = out, args
	})
	r := helperReq{ok: make(chan bool)}
	r.f = func(t *testing.T) {
		defer func() { panicked = recover() }()
		f(t)
	}
	h.ch <- r
	passed = <-r.ok
	return passed, panicked
}

var (
	errOne = errors.New("first error")
	errTwo = errors.New("second problem")
	errSet = errorSet{"a", "set"}
)

// errorSet cannot be compared.
type errorSet []string

func (e errorSet) Error() string { return strings.Join(e, " ") }

// ways a method may behave
type helperMode struct {
	name string
	out  string // of append
	dv   int    // added to the value by unmarshal, or -1: nothing is stored
	err  error
}

var helperModes = []helperMode{
	{"right", `{"V":1,"Mode":0}`, 0, nil},
	{"wrong", `{"V":2,"Mode":1}`, 1, nil},
	{"nothing", ``, -1, nil},
	{"right with space", `{"V":1, "Mode":3}`, 0, nil},
	{"right and more", `{"V":1,"Mode":4} `, 0, nil},
	{"first error", ``, -1, errOne},
	{"right, first error", `{"V":1,"Mode":6}`, 0, errOne},
	{"second error", ``, -1, errTwo},
	{"set of errors", ``, -1, errSet},
	{"null", `null`, 0, nil},
	{"short", `{"V":1,"Mode":10`, 2, nil},
}

// hval has its methods on the value, hptr on the pointer, hmap is a map.
type hval struct{ V, Mode int }
type hptr struct{ V, Mode int }
type hmap map[string]int
type hnone struct{ V, Mode int }
type hwrong struct{ V, Mode int }

func appendMode(out []byte, mode int) ([]byte, error) {
	m := &helperModes[mode]
	if m.out == "" {
		return nil, m.err
	}
	return append(out, m.out...), m.err
}

func (h hval) AppendJSON(out []byte) ([]byte, error)  { return appendMode(out, h.Mode) }
func (h *hptr) AppendJSON(out []byte) ([]byte, error) { return appendMode(out, h.Mode) }

// Other behaves as the next mode.
func (h hval) Other(out []byte) ([]byte, error)  { return appendMode(out, (h.Mode+1)%len(helperModes)) }
func (h *hptr) Other(out []byte) ([]byte, error) { return appendMode(out, (h.Mode+1)%len(helperModes)) }

func (hwrong) AppendJSON(out []byte) []byte      { return append(out, `{"V":1,"Mode":0}`...) }
func (*hwrong) UnmarshalNodeJSON(n []byte) error { return nil }
func (hwrong) Other(string) ([]byte, error)      { return []byte(`{"V":1,"Mode":0}`), nil }

func nodeInt(n njson.Node, key string) int {
	i, _ := n.Get(key).ToInt()
	return int(i)
}

func (h *hptr) unmarshal(n njson.Node, shift int) error {
	m := nodeInt(n, "Mode")
	mode := &helperModes[(m+shift)%len(helperModes)]
	if mode.dv >= 0 {
		h.V, h.Mode = nodeInt(n, "V")+mode.dv, m
	}
	return mode.err
}

func (h *hptr) UnmarshalNodeJSON(n njson.Node) error { return h.unmarshal(n, 0) }
func (h *hptr) Custom(n njson.Node) error            { return h.unmarshal(n, 1) }
func (h *hptr) Bad(n njson.Node)                     {}

func (h hmap) UnmarshalNodeJSON(n njson.Node) error {
	m := nodeInt(n, "Mode")
	mode := &helperModes[m]
	if mode.dv >= 0 {
		h["V"], h["Mode"] = nodeInt(n, "V")+mode.dv, m
	}
	return mode.err
}

// ways to state the expected error
type helperErr struct {
	name string
	make func() njsontest.Option
	none bool // no error is expected
	take func(err error) bool
}

var helperErrs = []helperErr{
	{"none", func() njsontest.Option { return nil }, true, nil},
	{"nil", func() njsontest.Option { return njsontest.Error(nil) }, true, nil},
	{"first error", func() njsontest.Option { return njsontest.Error(errOne) }, false, func(err error) bool { return err == errOne }},
	{"second error", func() njsontest.Option { return njsontest.Error(errTwo) }, false, func(err error) bool { return err == errTwo }},
	{"equal text, other error", func() njsontest.Option { return njsontest.Error(errors.New("first error")) }, false, func(err error) bool { return false }},
	{"set of errors", func() njsontest.Option { return njsontest.Error(errorSet{"a", "set"}) }, false, func(err error) bool { return reflect.DeepEqual(err, errSet) }},
	{"other set of errors", func() njsontest.Option { return njsontest.Error(errorSet{"a", "set", "more"}) }, false, func(err error) bool { return false }},
	{"text first", func() njsontest.Option { return njsontest.Error("first") }, false, func(err error) bool { return strings.Contains(err.Error(), "first") }},
	{"text problem", func() njsontest.Option { return njsontest.Error("problem") }, false, func(err error) bool { return strings.Contains(err.Error(), "problem") }},
	{"no text", func() njsontest.Option { return njsontest.Error("") }, true, nil},
	{"text of a pattern", func() njsontest.Option { return njsontest.Error("f.*t") }, false, func(err error) bool { return false }},
	{"pattern", func() njsontest.Option { return njsontest.Error(regexp.MustCompile("^f.*t e")) }, false, func(err error) bool { return err == errOne }},
	{"pattern of all", func() njsontest.Option { return njsontest.Error(regexp.MustCompile("")) }, false, func(err error) bool { return true }},
	{"pattern of none", func() njsontest.Option { return njsontest.Error(regexp.MustCompile("$x")) }, false, func(err error) bool { return false }},
	{"function taking the first", func() njsontest.Option {
		return njsontest.Error(func(err error) error {
			if err == errOne {
				return nil
			}
			return errors.New("not the first")
		})
	}, false, func(err error) bool { return err == errOne }},
	{"function taking all", func() njsontest.Option { return njsontest.Error(func(error) error { return nil }) }, false, func(error) bool { return true }},
	{"function taking none", func() njsontest.Option { return njsontest.Error(func(err error) error { return err }) }, false, func(error) bool { return false }},
	{"true", func() njsontest.Option { return njsontest.Error(true) }, false, func(error) bool { return true }},
	{"false", func() njsontest.Option { return njsontest.Error(false) }, true, nil},
}

type failReader struct{ s string }

func (r *failReader) Read(p []byte) (int, error) {
	if r.s == "" {
		return 0, errors.New("reader fails")
	}
	n := copy(p, r.s)
	r.s = r.s[n:]
	return n, nil
}

// ways to give JSON; ok is false if getting it fails.
type helperJSON struct {
	name string
	make func(s string, mode int) njsontest.Option
	text func(s string, mode int) (string, bool)
}

func own(s string, mode int) (string, bool) { return s, true }

var helperJSONs = []helperJSON{
	{"string", func(s string, _ int) njsontest.Option { return njsontest.JSON(s) }, own},
	{"bytes", func(s string, _ int) njsontest.Option { return njsontest.JSON([]byte(s)) }, own},
	{"function", func(s string, _ int) njsontest.Option {
		return njsontest.JSON(func() ([]byte, error) { return []byte(s), nil })
	}, own},
	{"reader", func(s string, _ int) njsontest.Option { return njsontest.JSON(strings.NewReader(s)) }, own},
	{"slow reader", func(s string, _ int) njsontest.Option {
		return njsontest.JSON(io.Reader(&chunkReader{data: s, size: 1, end: io.EOF}))
	}, own},
	{"buffer", func(s string, _ int) njsontest.Option { return njsontest.JSON(bytes.NewBufferString(s)) }, own},
	{"raw message", func(s string, _ int) njsontest.Option { return njsontest.JSON(json.RawMessage(s)) }, func(s string, _ int) (string, bool) {
		b, err := json.Marshal(json.RawMessage(s))
		return string(b), err == nil
	}},
	{"default", func(string, int) njsontest.Option { return nil }, func(_ string, mode int) (string, bool) { return fmt.Sprintf(`{"V":1,"Mode":%d}`, mode), true }},
	{"value", func(_ string, mode int) njsontest.Option { return njsontest.JSON(hnone{1, mode}) }, func(_ string, mode int) (string, bool) { return fmt.Sprintf(`{"V":1,"Mode":%d}`, mode), true }},
	{"nil", func(string, int) njsontest.Option { return njsontest.JSON(nil) }, func(string, int) (string, bool) { return "null", true }},
	{"failing function", func(s string, _ int) njsontest.Option {
		return njsontest.JSON(func() ([]byte, error) { return []byte(s), errOne })
	}, func(string, int) (string, bool) { return "", false }},
	{"failing reader", func(s string, _ int) njsontest.Option { return njsontest.JSON(&failReader{s}) }, func(string, int) (string, bool) { return "", false }},
	{"value without JSON", func(string, int) njsontest.Option { return njsontest.JSON(make(chan int)) }, func(string, int) (string, bool) { return "", false }},
}

func helperTexts(mode int) []string {
	return []string{
		fmt.Sprintf(`{"V":1,"Mode":%d}`, mode),
		fmt.Sprintf(` {"V" : 1,"Mode":%d}`+"\n", mode),
		fmt.Sprintf(`{"V":2,"Mode":%d}`, mode),
		fmt.Sprintf(`{"V":1,"Mode":%d`, mode),
		fmt.Sprintf(`{"V":1,"Mode":%d} x`, mode),
		fmt.Sprintf(`{"V":1,"Mode":%d}{}`, mode),
		``,
		`null`,
		helperModes[mode].out,
		fmt.Sprintf(`{"V":1,"Mode":%d}`+"\u00a0", mode),
	}
}

var helperMethods = []string{"", "AppendJSON", "Other", "Missing", "other", "AppendJSON2"}
var helperUMethods = []string{"", "UnmarshalNodeJSON", "Custom", "Missing", "unmarshal", "Bad"}

// verdict compares the helper with what is right.
func verdict(t *core.T, what string, f func(*testing.T), pass bool) {
	t.Steps(1)
	got, p := runT(f)
	if p != nil {
		t.Failf("%s: the helper panics: %v", what, p)
	}
	if got != pass {
		t.Failf("%s: the helper passes: %v, want %v", what, got, pass)
	}
}

// judge tells if the method's error is right; done if nothing else counts.
func judge(e *helperErr, err error) (pass, done bool) {
	if e.none {
		return err == nil, err != nil
	}
	return err != nil && e.take(err), true
}

func optionOrders(opts []njsontest.Option) [][]njsontest.Option {
	rev := make([]njsontest.Option, len(opts))
	for i, o := range opts {
		rev[len(opts)-1-i] = o
	}
	return [][]njsontest.Option{opts, rev}
}

// checkAppendHelper: receiver, mode, method, JSON way, text, error.
func checkAppendHelper(t *core.T, c []byte) {
	t.StateBytes(c)
	mode := int(c[1])
	var x interface{}
	kinds := "AppendJSON Other"
	switch c[0] {
	case 0:
		x = hval{1, mode}
	case 1:
		x = &hval{1, mode}
	case 2:
		x = &hptr{1, mode}
	case 3:
		x = hptr{1, mode}
		kinds = ""
	case 4:
		x = hnone{1, mode}
		kinds = ""
	case 5:
		x = hwrong{1, mode}
		kinds = ""
	}
	name := helperMethods[c[2]]
	js := &helperJSONs[c[3]]
	text := helperTexts(mode)[c[4]]
	for order := 0; order < 2; order++ {
		e := &helperErrs[c[5]]
		opts := optionOrders([]njsontest.Option{njsontest.Method(name), js.make(text, mode), e.make()})[order]
		called := name
		if called == "" {
			called = "AppendJSON"
		}
		m := helperModes[mode]
		if called == "Other" {
			m = helperModes[(mode+1)%len(helperModes)]
		}
		want, ok := js.text(text, mode)
		pass := ok
		has := false
		for _, k := range strings.Fields(kinds) {
			has = has || k == called
		}
		if !has {
			pass = false
		}
		if pass {
			var done bool
			if pass, done = judge(e, m.err); !done {
				pass = m.out == want
			}
		}
		verdict(t, showAppendHelper(c), njsontest.AppendJSON(x, opts...), pass)
	}
}

func showAppendHelper(c []byte) string {
	return fmt.Sprintf("AppendJSON of %s (%s), method %q, JSON by %s %q, error %s", []string{"value", "pointer to value", "pointer", "value without the pointer's methods", "type without methods", "type with other methods"}[c[0]],
		helperModes[c[1]].name, helperMethods[c[2]], helperJSONs[c[3]].name, helperTexts(int(c[1]))[c[4]], helperErrs[c[5]].name)
}

var helperValues = []string{"none", "new", "preset", "equal preset", "map", "type without methods", "not a pointer", "other type"}

// checkUnmarshalHelper: expected value, mode, method, JSON way, text, error, Value.
func checkUnmarshalHelper(t *core.T, c []byte) {
	t.StateBytes(c)
	mode := int(c[1])
	name := helperUMethods[c[2]]
	js := &helperJSONs[c[3]]
	text := helperTexts(mode)[c[4]]
	called := name
	if called == "" {
		called = "UnmarshalNodeJSON"
	}
	has := called == "UnmarshalNodeJSON" || called == "Custom"
	var x interface{}
	var want interface{} // without pointer
	switch c[0] {
	case 0:
		x, want = &hptr{1, mode}, hptr{1, mode}
	case 1:
		x, want = hptr{1, mode}, hptr{1, mode}
	case 2:
		x, want = hnone{1, mode}, hnone{1, mode}
	case 3:
		x, want = &hwrong{1, mode}, hwrong{1, mode}
	case 4:
		x, want = hmap{"V": 1, "Mode": mode}, hmap{"V": 1, "Mode": mode}
	}
	if c[0] == 2 || c[0] == 3 {
		has = has && c[6] != 0 // the value given counts
	}
	if c[0] == 4 && c[6] == 0 && called != "UnmarshalNodeJSON" {
		has = false
	}
	var value interface{}
	got := hptr{}
	isMap := false
	switch c[6] {
	case 0:
		if c[0] == 4 {
			return // a nil map cannot be filled
		}
	case 1:
		value = &hptr{}
	case 2:
		value, got = &hptr{9, 9}, hptr{9, 9}
	case 3:
		value, got = &hptr{1, mode}, hptr{1, mode}
	case 4:
		value, isMap = hmap{}, true
		has = called == "UnmarshalNodeJSON"
	case 5:
		value, has = &hnone{1, mode}, false
	case 6:
		value, has = hptr{1, mode}, false
	case 7:
		value, has = &hwrong{1, mode}, false
	}
	e := &helperErrs[c[5]]
	opts := []njsontest.Option{njsontest.Method(name), js.make(text, mode), e.make()}
	if value != nil {
		opts = append(opts, njsontest.Value(value))
	}
	src, ok := js.text(text, mode)
	pass := has && ok
	var in hptr
	dec := json.NewDecoder(strings.NewReader(src))
	var any interface{}
	if pass {
		if err := json.Unmarshal([]byte(src), &any); err != nil {
			pass = false // not one JSON value
		} else if _, isObj := any.(map[string]interface{}); isObj {
			if err := dec.Decode(&in); err != nil {
				panic(err)
			}
		}
	}
	if pass {
		m := in.Mode
		if called == "Custom" {
			m = (m + 1) % len(helperModes)
		}
		hm := helperModes[m]
		var done bool
		if pass, done = judge(e, hm.err); !done {
			result := map[string]int{}
			if !isMap {
				result = map[string]int{"V": got.V, "Mode": got.Mode}
			}
			if hm.dv >= 0 {
				result = map[string]int{"V": in.V + hm.dv, "Mode": in.Mode}
			}
			if isMap {
				pass = reflect.DeepEqual(want, hmap(result))
			} else {
				pass = reflect.DeepEqual(want, hptr{result["V"], result["Mode"]})
			}
		}
	}
	verdict(t, showUnmarshalHelper(c), njsontest.Unmarshal(x, opts...), pass)
}

func showUnmarshalHelper(c []byte) string {
	return fmt.Sprintf("Unmarshal of %s (%s), method %q, JSON by %s %q, error %s, value %s", []string{"pointer", "value", "type without methods", "type with other methods", "map"}[c[0]],
		helperModes[c[1]].name, helperUMethods[c[2]], helperJSONs[c[3]].name, helperTexts(int(c[1]))[c[4]], helperErrs[c[5]].name, helperValues[c[6]])
}

func c28(tr string) []core.Family {
	product := func(sizes []int, emit func([]byte) bool, skip func(c []byte) bool) {
		c := make([]byte, len(sizes))
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == len(sizes) {
				if skip(c) {
					return true
				}
				return emit(append([]byte{}, c...))
			}
			for k := 0; k < sizes[i]; k++ {
				c[i] = byte(k)
				if !rec(i + 1) {
					return false
				}
			}
			return true
		}
		rec(0)
	}
	texts := len(helperTexts(0))
	// ways to give JSON that do not use the text take one text
	noText := func(way, text byte) bool { return way >= 7 && text > 0 }
	quick := tr != "thorough"
	return []core.Family{
		largeHelpers(tr),
		{Name: "append", Rule: fmt.Sprintf("6 receivers x %d behaviours x %d method names x %d ways to give JSON x %d texts x %d ways to state the error, options in both orders", len(helperModes), len(helperMethods), len(helperJSONs), texts, len(helperErrs)),
			Enum: func(emit func([]byte) bool) {
				product([]int{6, len(helperModes), len(helperMethods), len(helperJSONs), texts, len(helperErrs)}, emit, func(c []byte) bool {
					return noText(c[3], c[4]) || quick && (c[2] > 2 || c[0] > 2) && c[1] > 0 || quick && c[3] > 0 && c[4] > 0 && c[4] != 8 && c[5] > 3
				})
			}, Check: checkAppendHelper, Show: showAppendHelper},
		{Name: "unmarshal", Rule: fmt.Sprintf("5 expected values x %d behaviours x %d method names x %d ways to give JSON x %d texts x %d ways to state the error x %d values to decode into", len(helperModes), len(helperUMethods), len(helperJSONs), texts, len(helperErrs), len(helperValues)),
			Enum: func(emit func([]byte) bool) {
				product([]int{5, len(helperModes), len(helperUMethods), len(helperJSONs), texts, len(helperErrs), len(helperValues)}, emit, func(c []byte) bool {
					n := 0 // unusual choices, in the quick check at most 4 at a time
					for i, b := range c {
						if b > 0 && i != 1 {
							n++
						}
					}
					return noText(c[3], c[4]) || quick && n > 3
				})
			}, Check: checkUnmarshalHelper, Show: showUnmarshalHelper},
	}
}
