package checks

// C23: the line decoder. The model splits the stream at line feeds (a last piece without one counts as a line if it has
// bytes), takes every line as one JSON value between JSON white space, and follows the calls: one line each. A blank line may be
// reported or passed over.

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C23", Level: "exhaustive", Families: c23,
		Assumptions: []string{
			"a blank line may be reported as an error or passed over; both are accepted",
			"lines end with \\n; a \\r before it is white space; white space is what JSON calls white space",
			"nothing is required of calls after the call that reported a reader's error",
			"whether a single line fits a target is what unjson.Unmarshal says (C17)",
		}})
}

var errFault = errors.New("stream fault")

// chunkReader delivers data in the given pieces, then end.
type chunkReader struct {
	data  string
	cuts  []int // ascending offsets where a read must end
	ci    int
	size  int // fixed chunk size, 0: none
	off   int
	zeros int   // empty reads before each piece
	z     int   //
	end   error // what the reader ends with
	with  bool  // the end comes with the last bytes
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.off == len(r.data) {
		return 0, r.end
	}
	if r.z < r.zeros {
		r.z++
		return 0, nil
	}
	r.z = 0
	to := len(r.data)
	for r.ci < len(r.cuts) && r.cuts[r.ci] <= r.off {
		r.ci++
	}
	if r.ci < len(r.cuts) {
		to = r.cuts[r.ci]
	}
	if r.size > 0 && to > r.off+r.size {
		to = r.off + r.size
	}
	n := copy(p, r.data[r.off:to])
	r.off += n
	if r.with && r.off == len(r.data) {
		return n, r.end
	}
	return n, nil
}

// rawKeeper keeps strings of the document it is decoded from.
type rawKeeper struct {
	Raws []string
}

func (k *rawKeeper) UnmarshalNodeJSON(n njson.Node) error {
	k.Raws = nil
	var walk func(n njson.Node)
	walk = func(n njson.Node) {
		k.Raws = append(k.Raws, n.Raw())
		s := n.Unescaped()
		k.Raws = append(k.Raws, s)
		for it := n.Values(); it.Next(); {
			k.Raws = append(k.Raws, it.Key())
			walk(it.Value())
		}
	}
	walk(n)
	return nil
}

type streamRec struct {
	A string
	B []int
	C map[string]string
}

var streamTargets = []reflect.Type{
	reflect.TypeOf((*interface{})(nil)).Elem(),
	reflect.TypeOf(""),
	reflect.TypeOf(0),
	reflect.TypeOf(streamRec{}),
	reflect.TypeOf([]string(nil)),
	reflect.TypeOf(map[string]interface{}(nil)),
	reflect.TypeOf(rawKeeper{}),
	reflect.TypeOf((*streamRec)(nil)),
	reflect.TypeOf([2]interface{}{}),
}

const jsonSpace = " \t\r\n"

type streamLine struct {
	text string
	kind byte // 'v'alue, 'b'lank, 'e'rror
}

var streamSpecial = [...]string{"\v", "\f", "\u0085", "\u00a0"}

// streamLines is the model of what a stream consists of; rest is what follows the last line feed.
func streamLines(s string) (lines []streamLine, rest string) {
	for s != "" {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return lines, s
		}
		lines = append(lines, classify(s[:i]))
		s = s[i+1:]
	}
	return lines, ""
}

func classify(s string) streamLine {
	if strings.Trim(s, jsonSpace) == "" {
		return streamLine{s, 'b'}
	}
	_, tail, err := model.Parse(s)
	if err != nil || strings.Trim(tail, jsonSpace) != "" {
		return streamLine{s, 'e'}
	}
	return streamLine{s, 'v'}
}

type streamRun struct {
	data   string
	cuts   []int
	size   int
	zeros  int
	fault  int // bytes delivered before the fault, -1: none
	with   bool
	buf    int // size of the bufio.Reader handed over, 0: none
	typ    int
	typed  bool // use a Decoder for the type
	same   bool // decode into one variable
	nolong bool
}

func (r *streamRun) String() string {
	s := fmt.Sprintf("stream %q into %v", clip(r.data), streamTargets[r.typ])
	if r.cuts != nil {
		s += fmt.Sprintf(", reads end at %v", r.cuts)
	}
	if r.size != 0 {
		s += fmt.Sprintf(", reads of %d bytes", r.size)
	}
	if r.zeros != 0 {
		s += fmt.Sprintf(", %d empty reads before each", r.zeros)
	}
	if r.fault >= 0 {
		s += fmt.Sprintf(", reader fails after %d bytes", r.fault)
	}
	if r.with {
		s += ", the end comes with the last bytes"
	}
	if r.buf != 0 {
		s += fmt.Sprintf(", buffer of %d bytes", r.buf)
	}
	if r.typed {
		s += ", typed decoder"
	}
	if r.same {
		s += ", one variable"
	}
	return s
}

type streamExpect struct {
	line string
	typ  int
}
type streamGot struct {
	val reflect.Value
	ok  bool
}

// lineValue is what the line alone gives.
func lineValue(t *core.T, l streamLine, typ int) (reflect.Value, bool) {
	v := reflect.New(streamTargets[typ])
	if l.kind != 'v' {
		return v, false
	}
	s := strings.Trim(l.text, jsonSpace)
	if typ == 0 {
		m, _, _ := model.Parse(s)
		x, res := generic(m)
		switch res {
		case encOK:
			if x != nil {
				v.Elem().Set(reflect.ValueOf(x))
			}
			return v, true
		case encFail:
			return v, false
		}
	}
	err := unjson.Unmarshal([]byte(s), v.Interface())
	return v, err == nil
}

func cachedLine(t *core.T, l streamLine, typ int) (reflect.Value, bool) {
	if len(l.text) > 64 {
		return lineValue(t, l, typ)
	}
	m, _ := t.W["lines"].(map[streamExpect]streamGot)
	if m == nil {
		m = map[streamExpect]streamGot{}
		t.W["lines"] = m
	}
	k := streamExpect{l.text, typ}
	g, ok := m[k]
	if !ok {
		g.val, g.ok = lineValue(t, l, typ)
		if len(m) > 100000 {
			m = map[streamExpect]streamGot{}
			t.W["lines"] = m
		}
		m[k] = g
	}
	return g.val, g.ok
}

func runStream(t *core.T, r *streamRun) {
	t.Runs(1)
	data, end := r.data, io.EOF
	if r.fault >= 0 {
		data, end = data[:r.fault], errFault
	}
	lines, rest := streamLines(data)
	if r.fault < 0 && rest != "" {
		lines = append(lines, classify(rest))
		rest = ""
	}
	var rd io.Reader = &chunkReader{data: data, cuts: r.cuts, size: r.size, zeros: r.zeros, end: end, with: r.with}
	if r.buf != 0 {
		rd = bufio.NewReaderSize(rd, r.buf)
	}
	d := unjson.NewLineDecoder(rd)
	typ := streamTargets[r.typ]
	if r.typed {
		dec, err := typedDecoder(r.typ)
		if err != nil {
			t.Failf("no decoder for %v: %v", typ, err)
		}
		d.Decoder = dec
	}
	var got, want []reflect.Value
	at := []int{0} // lines that may be next
	var one, oneWant reflect.Value
	if r.same {
		one, oneWant = reflect.New(typ), reflect.New(typ)
	}
	for call := 0; ; call++ {
		if call > len(lines)+4 {
			t.Failf("%v: no end of stream after %d calls", r, call)
		}
		v := one
		if !r.same {
			v = reflect.New(typ)
		}
		err := d.Decode(v.Interface())
		t.Steps(1)
		// every way the call may be explained
		var next []int
		var wants reflect.Value
		done := false
		why := ""
		add := func(i int) {
			for _, x := range next {
				if x == i {
					return
				}
			}
			next = append(next, i)
		}
		for _, i := range at {
			for ; ; i++ {
				if i == len(lines) {
					switch {
					case err == nil:
						why = "a value after the last line"
					case end == io.EOF && err != io.EOF:
						why = fmt.Sprintf("error %q at the end of the stream", err)
					case end == errFault && !errors.Is(err, errFault):
						why = fmt.Sprintf("error %q where the reader failed", err)
					default:
						done = true
						add(i)
					}
					break
				}
				l := lines[i]
				if l.kind == 'b' {
					if err != nil && err != io.EOF && !errors.Is(err, errFault) {
						add(i + 1)
					}
					continue // or it is passed over
				}
				var w reflect.Value
				var ok bool
				if r.same {
					if l.kind == 'v' {
						w = oneWant
						ok = unjson.Unmarshal([]byte(strings.Trim(l.text, jsonSpace)), w.Interface()) == nil
					}
				} else {
					w, ok = cachedLine(t, l, r.typ)
				}
				switch {
				case ok && err != nil:
					why = fmt.Sprintf("line %d, %q: error %q", i, clip(l.text), err)
				case ok && !reflect.DeepEqual(v.Elem().Interface(), w.Elem().Interface()):
					why = fmt.Sprintf("line %d, %q gives %#v, want %#v", i, clip(l.text), v.Elem().Interface(), w.Elem().Interface())
				case ok:
					wants = w
					add(i + 1)
				case err == nil:
					why = fmt.Sprintf("line %d, %q is accepted as %#v", i, clip(l.text), v.Elem().Interface())
				case err == io.EOF:
					why = fmt.Sprintf("line %d, %q is reported as the end of the stream", i, clip(l.text))
				default:
					add(i + 1)
				}
				break
			}
		}
		if len(next) == 0 {
			t.Failf("%v: call %d: %s", r, call, why)
		}
		at = next
		if err == nil && !r.same {
			got, want = append(got, v), append(want, wants)
		}
		if r.same && err != nil {
			// a failed decode leaves the variable in an unspecified state
			one, oneWant = reflect.New(typ), reflect.New(typ)
		}
		if done {
			if end != io.EOF {
				break
			}
			if err := d.Decode(reflect.New(typ).Interface()); err != io.EOF {
				t.Failf("%v: error %v after the end of the stream", r, err)
			}
			break
		}
	}
	for i := range got {
		if !reflect.DeepEqual(got[i].Elem().Interface(), want[i].Elem().Interface()) {
			t.Failf("%v: value %d is %#v at the end, was %#v", r, i, got[i].Elem().Interface(), want[i].Elem().Interface())
		}
	}
}

var streamToks = []string{"1", `"a"`, "[", "]", "{}", ",", " ", "\r", "\t", "\n", "\v", "\u0085", "\u00a0", "x", "null"}

// streamAlphabet checks a short stream under every division into reads.
func streamAlphabet(t *core.T, c []byte) {
	t.StateBytes(c)
	s := ""
	for _, b := range c {
		s += streamToks[b]
	}
	for mask := 0; mask < 1<<uint(max0(len(s)-1)); mask++ {
		if len(s) > 8 && mask&(mask-1) != 0 && mask != 1<<uint(len(s)-1)-1 {
			continue // longer ones: one cut, or every byte by itself
		}
		var cuts []int
		for i := 1; i < len(s); i++ {
			if mask>>uint(i-1)&1 != 0 {
				cuts = append(cuts, i)
			}
		}
		for w := 0; w < 2; w++ {
			runStream(t, &streamRun{data: s, cuts: cuts, fault: -1, with: w == 1})
		}
	}
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

var streamCatalog = []string{
	`1`, `"x"`, `{"A":"q","B":[1,2]}`, `["a","b\n"]`, ` null `, `{"A":"\u0041\\","C":{"k":"v"}}`, `[]`, `true`,
	``, ` `, `1 2`, `{"A":`, `]`, `{"B":["x"]}`, `"unterminated`, "[1,\"\xc3\xa9\"]\t", `{"A":{}} {}`, `1,`,
}

var streamEnds = []string{"\n", "\r\n"}

// streamText builds the stream of case c: ending, final newline, lines.
func streamText(c []byte) string {
	var b strings.Builder
	for i, l := range c[1:] {
		b.WriteString(streamCatalog[l])
		if i < len(c)-2 || c[0]&1 == 0 {
			b.WriteString(streamEnds[c[0]>>1])
		}
	}
	return b.String()
}

func streamMany(t *core.T, c []byte) {
	t.StateBytes(c)
	s := streamText(c)
	for typ := range streamTargets {
		for _, size := range []int{0, 1, 2, 3, 7} {
			for w := 0; w < 2; w++ {
				r := &streamRun{data: s, size: size, fault: -1, with: w == 1, typ: typ}
				runStream(t, r)
				r.typed = true
				runStream(t, r)
				r.same = true
				runStream(t, r)
				r.typed = false
				runStream(t, r)
			}
		}
	}
	for i := 1; i < len(s); i++ {
		for _, b := range []int{0, 16} {
			runStream(t, &streamRun{data: s, cuts: []int{i}, fault: -1, typ: 6, buf: b})
		}
		if len(c) < 4 {
			for j := i + 1; j < len(s); j++ {
				runStream(t, &streamRun{data: s, cuts: []int{i, j}, fault: -1, typ: 6})
			}
		}
	}
}

func streamFaults(t *core.T, c []byte) {
	t.StateBytes(c)
	s := streamText(c)
	for at := 0; at <= len(s); at++ {
		for w := 0; w < 2; w++ {
			if at == 0 && w == 1 {
				continue
			}
			for _, size := range []int{0, 1, 3} {
				for _, z := range []int{0, 1, 99} {
					if z == 99 && (size != 3 || w == 1) {
						continue
					}
					for _, b := range []int{0, 16} {
						runStream(t, &streamRun{data: s, fault: at, with: w == 1, size: size, zeros: z, buf: b, typ: 0})
						runStream(t, &streamRun{data: s, fault: at, with: w == 1, size: size, zeros: z, buf: b, typ: 3})
					}
				}
			}
		}
	}
}

// fillLine makes a line of exactly n bytes including its terminator.
func fillLine(kind byte, n int, crlf, last bool, seed int) string {
	endl := "\n"
	if crlf {
		endl = "\r\n"
	}
	if last {
		endl = ""
	}
	body := n - len(endl)
	digit := string(rune('0' + seed%8 + 1))
	switch {
	case body <= 0:
		return "1\n"
	case body < 3:
		return strings.Repeat(digit, body) + endl
	}
	switch kind {
	case 0:
		return `"` + strings.Repeat(string(rune('a'+seed%26)), body-2) + `"` + endl
	case 1:
		if body&1 == 0 {
			return "[" + strings.Repeat(digit+",", body/2-2) + digit + digit + "]" + endl
		}
		return "[" + strings.Repeat(digit+",", (body-3)/2) + digit + "]" + endl
	case 2:
		return strings.Repeat(" ", body-1) + digit + endl
	default:
		return digit + strings.Repeat(" ", body-1) + endl
	}
}

// streamLengths: c = buffer selector, kind, flags, two lengths.
func streamLengths(t *core.T, c []byte) {
	t.StateBytes(c)
	buf := int(binary.LittleEndian.Uint16(c))
	kind, flags := c[2], c[3]
	n1 := int(binary.LittleEndian.Uint32(c[4:]))
	n2 := int(binary.LittleEndian.Uint32(c[8:]))
	crlf := flags&1 != 0
	s := fillLine(kind, n1, crlf, false, 0) + fillLine(kind, n2, crlf, flags&2 != 0, 1)
	if flags&2 == 0 {
		s += "7\n"
	}
	size := buf
	if size == 0 {
		size = 4096
	}
	for k, ch := range []int{0, 1, size - 1, size, size + 1} {
		if ch == 1 && len(s) > 10000 || t.Tier != "thorough" && buf == 0 && ch == 1 && !streamKeyLen(n1, 0) {
			continue
		}
		runStream(t, &streamRun{data: s, size: ch, buf: buf, fault: -1, with: k&1 == 0, typ: 6})
		if k == 0 || t.Tier == "thorough" {
			for _, typ := range []int{1, 4, 2} { // one fits some shapes, the others none
				runStream(t, &streamRun{data: s, size: ch, buf: buf, fault: -1, typ: typ, typed: true})
			}
			runStream(t, &streamRun{data: s, size: ch, buf: buf, fault: -1, typ: 4, same: true})
		}
		if k < 2 || t.Tier == "thorough" {
			runStream(t, &streamRun{data: s, size: ch, buf: buf, fault: -1, with: k&1 != 0, typ: 0})
		}
	}
}

func streamLens(buf int, tr string) []int {
	size := buf
	if size == 0 {
		size = 4096
	}
	var out []int
	for k := 0; k <= 3; k++ {
		for d := -3; d <= 3; d++ {
			if n := k*size + d; n > 1 {
				out = append(out, n)
			}
		}
	}
	if buf == 0 {
		out = append(out, 65535, 65536, 65537)
		if tr == "thorough" {
			out = append(out, 1<<20-1, 1<<20, 1<<20+1)
		}
	} else if buf == 16 || tr == "thorough" {
		for n := 2; n <= 70; n++ {
			out = append(out, n)
		}
	}
	return out
}

// streamKeyLen tells the lengths that meet all others in the quick check.
func streamKeyLen(n, buf int) bool {
	if buf == 0 {
		buf = 4096
	}
	return n == 2 || n == buf-1 || n == buf || n == buf+1
}

// patternReader repeats lines.
type patternReader struct {
	line string
	left int
	pos  int
}

func (r *patternReader) Read(p []byte) (int, error) {
	if r.left == 0 {
		return 0, io.EOF
	}
	n := 0
	for n < len(p) && r.left > 0 {
		k := copy(p[n:], r.line[r.pos:])
		n += k
		if r.pos += k; r.pos == len(r.line) {
			r.pos = 0
			r.left--
		}
	}
	return n, nil
}

var memoryLines = []string{`{"a":[1,2,3],"b":"text"}`, `"` + strings.Repeat("x", 200) + `"`, `[[[]]]`, `1`, `{"a":`}

func streamMemory(t *core.T, c []byte) {
	line := memoryLines[c[0]] + "\n"
	const few, many = 1000, 200000
	heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	d := unjson.NewLineDecoder(&patternReader{line: line, left: few + many})
	if c[1] == 1 {
		d.Decoder, _ = unjson.NewTypeDecoder(streamTargets[0], "")
	}
	read := func(n int) {
		for i := 0; i < n; i++ {
			var x interface{}
			if err := d.Decode(&x); (err != nil) != (c[0] == 4) {
				t.Failf("line %d of many lines %q: error %v", i, line, err)
			}
		}
		t.Steps(n)
	}
	read(few)
	before := heap()
	read(many)
	after := heap()
	if after > before+many*8 {
		t.Failf("memory in use grows from %d to %d bytes while %d lines %q are read", before, after, many, clip(line))
	}
	runtime.KeepAlive(d)
}

func c23(tr string) []core.Family {
	quick := tr != "thorough"
	seqs := func(toks, depth int, pre []byte, emit func([]byte) bool) bool {
		ok := true
		var rec func(p []byte, left int)
		rec = func(p []byte, left int) {
			if ok = ok && emit(append([]byte{}, p...)); !ok || left == 0 {
				return
			}
			for i := 0; i < toks && ok; i++ {
				rec(append(p[:len(p):len(p)], byte(i)), left-1)
			}
		}
		rec(pre, depth)
		return ok
	}
	showText := func(c []byte) string { return fmt.Sprintf("%q", streamText(c)) }
	return []core.Family{
		{Name: "tokens", Rule: fmt.Sprintf("every sequence of up to %d of %d tokens (values, brackets, white space of JSON and not of JSON, line ends), every division into reads of those up to 8 bytes, the end with or after the last bytes", tier(tr, 4, 5), len(streamToks)),
			Enum:  func(emit func([]byte) bool) { seqs(len(streamToks), tier(tr, 4, 5), nil, emit) },
			Check: streamAlphabet, Show: func(c []byte) string {
				s := ""
				for _, b := range c {
					s += streamToks[b]
				}
				return fmt.Sprintf("%q", s)
			}},
		{Name: "lines", Rule: fmt.Sprintf("every sequence of up to %d of %d lines (valid, blank, malformed, several values, not fitting), two line ends, with and without the last, 9 targets, own or reused, with and without a typed decoder, reads of 1, 2, 3, 7 and all bytes, and every one or two cuts", tier(tr, 2, 3), len(streamCatalog)),
			Enum: func(emit func([]byte) bool) {
				for f := 0; f < 4; f++ {
					if !seqs(len(streamCatalog), tier(tr, 2, 3), []byte{byte(f)}, emit) {
						return
					}
				}
			}, Check: streamMany, Show: showText},
		{Name: "faults", Rule: fmt.Sprintf("every sequence of up to %d lines, the reader failing at every byte, with or after the last bytes, with empty reads between", tier(tr, 2, 3)),
			Enum: func(emit func([]byte) bool) {
				for f := 0; f < 4; f++ {
					if !seqs(len(streamCatalog), tier(tr, 2, 3), []byte{byte(f)}, emit) {
						return
					}
				}
			}, Check: streamFaults, Show: showText},
		{Name: "lengths", Rule: "two lines of every pair of lengths around multiples of the buffer's size (16, 17, 64 and the default of 4096; to 64 KiB, thorough: 1 MiB), 4 shapes, two line ends, with and without the last, reads of 1 byte and about the buffer's size",
			Enum: func(emit func([]byte) bool) {
				for _, buf := range []int{16, 17, 64, 0} {
					lens := streamLens(buf, tr)
					for kind := byte(0); kind < 4; kind++ {
						for flags := byte(0); flags < 4; flags++ {
							for _, n1 := range lens {
								for _, n2 := range lens {
									if n1 > 20000 && n2 > 20000 || quick && !streamKeyLen(n1, buf) && !streamKeyLen(n2, buf) {
										continue
									}
									c := make([]byte, 12)
									binary.LittleEndian.PutUint16(c, uint16(buf))
									c[2], c[3] = kind, flags
									binary.LittleEndian.PutUint32(c[4:], uint32(n1))
									binary.LittleEndian.PutUint32(c[8:], uint32(n2))
									if !emit(c) {
										return
									}
								}
							}
						}
					}
				}
			}, Check: streamLengths, Show: func(c []byte) string {
				return fmt.Sprintf("buffer %d, kind %d, flags %d, lines of %d and %d bytes", binary.LittleEndian.Uint16(c), c[2], c[3], binary.LittleEndian.Uint32(c[4:]), binary.LittleEndian.Uint32(c[8:]))
			}},
		{Name: "memory", Rule: "201000 lines of each of 5 kinds, with and without a typed decoder: memory in use does not grow", Single: true, Heavy: true,
			Enum: func(emit func([]byte) bool) {
				for i := range memoryLines {
					for k := 0; k < 2; k++ {
						if !emit([]byte{byte(i), byte(k)}) {
							return
						}
					}
				}
			}, Check: streamMemory, Show: func(c []byte) string { return memoryLines[c[0]] }},
	}
}

func typedDecoder(i int) (unjson.Decoder, error) {
	typ := streamTargets[i]
	if typ.Kind() != reflect.Interface {
		typ = reflect.PtrTo(typ)
	}
	return unjson.NewTypeDecoder(typ, "")
}
