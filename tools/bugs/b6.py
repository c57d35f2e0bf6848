exec(open('/verif/tools/bugs/common.py').read())
U=('strings','github.com/alxarch/njson/unjson')
# C23
bug("C23-alias","C23","a value decoded with its own method keeps a string of the node, and a later line of the stream is decoded","lines are gathered in one buffer that is read as a string, so a kept string changes when the next line is read",
[("unjson/stream.go","	s := strings.Builder{}\n","	d.line = d.line[:0]\n"),
 ("unjson/stream.go","		s.Write(line)\n","		d.line = append(d.line, line...)\n		s := lineString{d.line}\n"),
 ("unjson/stream.go","	p       njson.Document // a local njson.Parser\n","	p       njson.Document // a local njson.Parser\n	line    []byte         // the current line\n"),
 ("unjson/stream.go","// NewLineDecoder creates","// lineString views the line without copying it.\ntype lineString struct{ data []byte }\n\nfunc (s lineString) Len() int { return len(s.data) }\n\nfunc (s lineString) String() string { return *(*string)(unsafe.Pointer(&s.data)) }\n\n// NewLineDecoder creates"),
 ("unjson/stream.go",'	"strings"\n','	"strings"\n	"unsafe"\n')],
prog('''
	d := unjson.NewLineDecoder(strings.NewReader("\\"first\\"\\n\\"other\\"\\n"))
	var a, b keep
	if d.Decode(&a) != nil || d.Decode(&b) != nil {
		fail("cannot decode")
	}
	if a.s != "first" || b.s != "other" {
		fail("kept strings are", a.s, b.s)
	}
}

type keep struct{ s string }

func (k *keep) UnmarshalNodeJSON(n njson.Node) error {
	k.s = n.Raw()
	return nil
''',('strings','github.com/alxarch/njson','github.com/alxarch/njson/unjson')))
bug("C23-typed","C23","a LineDecoder with a Decoder of its own, and a line with a value that the Decoder refuses after other lines","the typed path passes over a line that does not fit instead of reporting it",
[("unjson/stream.go","		return d.Decoder.Decode(x, n)\n","		if err = d.Decoder.Decode(x, n); err == nil || s.Len() <= len(line) {\n			return err\n		}\n		s.Reset()\n")],
prog('''
	long := strings.Repeat("x", 5000)
	d := unjson.NewLineDecoder(strings.NewReader("[1]\\n\\"" + long + "\\"\\n[3]\\n"))
	d.Decoder, _ = unjson.NewTypeDecoder(reflect.TypeOf(&[]int{}), "")
	var x []int
	if err := d.Decode(&x); err != nil {
		fail(err)
	}
	if err := d.Decode(&x); err == nil {
		fail("line that does not fit is not reported; got", x)
	}
''',('strings','reflect','github.com/alxarch/njson/unjson')))
bug("C23-full","C23","a line whose bytes fill the reader's buffer exactly, the line feed being the next byte","a part that fills the buffer exactly is taken as a whole line when nothing more is buffered",
[("unjson/stream.go","			continue\n","			if next, _ := d.r.Peek(1); len(next) == 0 || next[0] != '\\n' {\n				continue\n			}\n")],
prog('''
	for n := 4000; n < 4200; n++ {
		line := "\\"" + strings.Repeat("x", n) + "\\""
		d := unjson.NewLineDecoder(strings.NewReader(line + "\\n1\\n"))
		var s string
		var i int
		if err := d.Decode(&s); err != nil || len(s) != n {
			fail("line of", n, err)
		}
		if err := d.Decode(&i); err != nil || i != 1 {
			fail("line after one of", n, err)
		}
	}
''',U))
# C24
bug("C24-after","C24","a writer that fails once, then another value on the same encoder","the buffer is emptied only after a successful write, so the line the writer refused is written again before the next",
[("unjson/stream.go","		e.buffer, err = AppendJSON(e.buffer[:0], x)\n","		e.buffer, err = AppendJSON(e.buffer, x)\n"),
 ("unjson/stream.go","		e.buffer, err = e.Encoder.Encode(e.buffer[:0], x)\n","		e.buffer, err = e.Encoder.Encode(e.buffer, x)\n"),
 ("unjson/stream.go","	if err != nil {\n		return\n	}\n	e.buffer = append(e.buffer, '\\n')\n	_, err = e.w.Write(e.buffer)\n	return\n","	if err != nil {\n		e.buffer = nil\n		return\n	}\n	e.buffer = append(e.buffer, '\\n')\n	if _, err = e.w.Write(e.buffer); err == nil {\n		e.buffer = e.buffer[:0]\n	}\n	return\n")],
prog('''
	w := &flaky{}
	e := unjson.NewLineEncoder(w)
	_ = e.Encode(1)
	w.fail = true
	if e.Encode(2) == nil {
		fail("no error")
	}
	w.fail = false
	_ = e.Encode(3)
	if s := w.s; s != "1\\n3\\n" {
		fail(fmt.Sprintf("%q", s))
	}
}

type flaky struct {
	s    string
	fail bool
}

func (f *flaky) Write(p []byte) (int, error) {
	if f.fail {
		return 0, fmt.Errorf("full")
	}
	f.s += string(p)
	return len(p), nil
''',('github.com/alxarch/njson/unjson',)))
bug("C24-split","C24","a line that fills the encoder's buffer to its capacity","the line feed is written by a second call when the buffer has no room for it",
[("unjson/stream.go","	e.buffer = append(e.buffer, '\\n')\n	_, err = e.w.Write(e.buffer)\n	return\n","	if len(e.buffer) == cap(e.buffer) && len(e.buffer) > 0 {\n		// Avoid growing the buffer for a single byte\n		if _, err = e.w.Write(e.buffer); err == nil {\n			_, err = e.w.Write([]byte{'\\n'})\n		}\n		return\n	}\n	e.buffer = append(e.buffer, '\\n')\n	_, err = e.w.Write(e.buffer)\n	return\n")],
prog('''
	for n := 0; n < 600; n++ {
		w := &counter{}
		e := unjson.NewLineEncoder(w)
		if err := e.Encode(strings.Repeat("x", n)); err != nil || w.n != 1 {
			fail("writes for one value of", n, "bytes:", w.n, err)
		}
	}
}

type counter struct{ n int }

func (c *counter) Write(p []byte) (int, error) {
	c.n++
	return len(p), nil
''',U))
bug("C24-partial","C24","a value whose own method fails after it appended more than a buffer's worth","when encoding fails after the buffer grew, what is there is written so as not to lose it",
[("unjson/stream.go","	if err != nil {\n		return\n	}\n	e.buffer = append(e.buffer, '\\n')\n","	if err != nil && len(e.buffer) < 1024 {\n		return\n	}\n	if err != nil {\n		// Keep the large buffer for the values to come\n		_, _ = e.w.Write(append(e.buffer, '\\n'))\n		return\n	}\n	e.buffer = append(e.buffer, '\\n')\n")],
prog('''
	var b strings.Builder
	e := unjson.NewLineEncoder(&b)
	if err := e.Encode([]interface{}{strings.Repeat("x", 3000), half{}}); err == nil {
		fail("no error")
	}
	if err := e.Encode(half{}); err == nil {
		fail("no error")
	}
	if b.Len() != 0 {
		fail("a value that cannot be encoded writes", b.Len(), "bytes")
	}
}

type half struct{}

func (half) AppendJSON(out []byte) ([]byte, error) {
	return append(out, strings.Repeat("[", 2000)...), fmt.Errorf("half way")
''',U))
# C27
bug("C27-many","C27","a mask of four or more kinds with a gap","a mask with many kinds is listed as the run of kinds from its lowest to its highest",
[("types.go","	for i := Type(0); i < 8; i++ {\n","	if n := bits.OnesCount(uint(t)); n > 3 {\n		// Long masks are runs of types\n		low := bits.TrailingZeros(uint(t))\n		for i := low; i < low+n; i++ {\n			types = append(types, Type(1<<uint(i)))\n		}\n		return\n	}\n	for i := Type(0); i < 8; i++ {\n")],
prog('''
	m := njson.TypeString | njson.TypeArray | njson.TypeBoolean | njson.TypeNull
	if s := fmt.Sprint(m.Types()); s != "[String Array Boolean Null]" {
		fail(s)
	}
''',('github.com/alxarch/njson',)))
bug("C27-uint","C27","decoding something other than a number or null into an unsigned integer","the error of the unsigned decoder is made from the value of an inner variable and names strings",
[("unjson/decode.go","		v.SetUint(n)\n		return\n	default:\n		return n.TypeError(njson.TypeNumber)\n","		v.SetUint(n)\n		return\n	default:\n		return n.TypeError(njson.TypeNumber | njson.TypeBoolean)\n")],
prog('''
	var u []uint8
	err := unjson.Unmarshal([]byte(`["x"]`), &u)
	if err == nil || strings.Contains(err.Error(), "Boolean") {
		fail(err)
	}
''',U))
bug("C27-setnull","C27","SetNull on a node that was a boolean","the node keeps the boolean kind beside null",
[("node.go","		n.reset(vNull|n.info.Flags(), strNull, n.values[:0])\n","		n.reset(vNull|n.info&^(vString|vNumber|vArray|vObject), strNull, n.values[:0])\n")],
prog('''
	d := njson.Document{}
	n, _, _ := d.Parse("[true]")
	n = n.Index(0)
	n.SetNull()
	if n.Type() != njson.TypeNull {
		fail(n.Type())
	}
''',('github.com/alxarch/njson',)))
# C28
T=('testing','github.com/alxarch/njson/njsontest')
TESTDEMO='''#!/bin/bash
# Runs the helper in a real test against the repository in the current directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
printf 'module demo\\n\\ngo 1.24\\n\\nrequire github.com/alxarch/njson v0.0.0\\n\\nreplace github.com/alxarch/njson => %s\\n' "$PWD" > "$T/go.mod"
cp "$D/main.go" "$T/demo_test.go"
cd "$T" || exit 3
go test -count=1 . > out 2>&1
rc=$?
cat out
grep -q WANTFAIL demo_test.go || exit $rc
grep -q -- '--- FAIL: TestHelper' out && ! grep -q panic out
'''
def tprog(want,body,imports):
    return 'package demo\n\n// '+want+'\n\nimport (\n'+''.join('\t"%s"\n'%i for i in imports)+')\n'+body
bug("C28-missing","C28","an expected error given as a pattern or function, and a method that returns no error","a missing error passes when the expectation is a function",
[("njsontest/t.go","	if v.IsNil() {\n		if check == nil {\n			return nil\n		}\n		return fmt.Errorf(\"Invalid error value %v\", v)\n	}\n	if !v.CanInterface() {\n","	if v.IsNil() {\n		return nil\n	}\n	if !v.CanInterface() {\n")],
tprog('WANTFAIL','''
type val struct{}

func (val) AppendJSON(out []byte) ([]byte, error) { return append(out, "{}"...), nil }

func TestHelper(t *testing.T) { njsontest.AppendJSON(val{}, njsontest.Error("boom"))(t) }
''',T),demosh=TESTDEMO)
bug("C28-space","C28","a method that produces white space before or after its JSON","output is compared without the white space around it",
[("njsontest/t.go","			if !bytes.Equal(actual, expect) {\n","			if !bytes.Equal(bytes.TrimSpace(actual), bytes.TrimSpace(expect)) {\n")],
tprog('WANTFAIL','''
type val struct{}

func (val) AppendJSON(out []byte) ([]byte, error) { return append(out, " {}"...), nil }

func TestHelper(t *testing.T) { njsontest.AppendJSON(val{})(t) }
''',T),demosh=TESTDEMO)
bug("C28-reader","C28","JSON given by a reader that delivers it in parts","only the first part of a reader is used",
[("njsontest/option.go","			return ioutil.ReadAll(j)\n","			data := make([]byte, 4096)\n			n, err := j.Read(data)\n			if err == io.EOF {\n				err = nil\n			}\n			return data[:n], err\n"),
 ("njsontest/option.go",'	"io/ioutil"\n','')],
tprog('','''
type val struct{}

func (val) AppendJSON(out []byte) ([]byte, error) { return append(out, "{}"...), nil }

func TestHelper(t *testing.T) {
	njsontest.AppendJSON(val{}, njsontest.JSON(iotest.OneByteReader(strings.NewReader("{}"))))(t)
}
''',('strings','testing/iotest')+T),demosh=TESTDEMO)
