import sys; sys.path.insert(0,'/verif/tools')
from mkbug import bug
def prog(body, imports=('github.com/alxarch/njson',)):
    im=''.join('\t"%s"\n'%i for i in imports)
    return '''
package main

import (
	"fmt"
	"os"
%s)

func fail(a ...interface{}) { fmt.Println(a...); os.Exit(1) }

func main() {
%s
}
'''%(im, body)
bug("C04-reuse","C04","a recycled document in which the node of an empty object held members before","an empty object parsed over an old object keeps blank members of the old one",
[("parser.go","""			// Zero out the values slice to release key strings
			for i := range n.values {
				n.values[i] = V{}
			}
			n.values = n.values[:0]
			return pos + 1
		case delimString:""","""			// Zero out the values slice to release key strings
			if len(n.values) > 1 {
				n.values = n.values[:1]
			}
			for i := range n.values {
				n.values[i] = V{}
			}
			return pos + 1
		case delimString:""")],prog('''	d := njson.Document{}
	d.Parse(`{"a":1,"b":2}`)
	d.Reset()
	n, _, err := d.Parse(`{}`)
	if it := n.Values(); err != nil || it.Len() != 0 {
		fail("members in {}:", it.Len(), err)
	}'''))
bug("C04-copy","C04","a document whose node storage was used before and a copied scalar landing on an old container node","copying a value into recycled storage keeps the old members of the node",
[("document.go","""	numV := uint(0)
	for i := range n.values {
		v := &n.values[i]
		n := other.get(v.id)
		if n != nil {
			values = appendV(values, v.key, d.ncopy(other, n), numV)
			numV++
		}
	}
	d.nodes[id].values = values[:numV]
	return id
}

// func""","""	numV := uint(0)
	for i := range n.values {
		v := &n.values[i]
		n := other.get(v.id)
		if n != nil {
			values = appendV(values, v.key, d.ncopy(other, n), numV)
			numV++
		}
	}
	if numV > 0 || n.info.Type()&(TypeObject|TypeArray) == 0 {
		values = values[:numV]
	}
	d.nodes[id].values = values
	return id
}

// func""")],prog('''	d := njson.Document{}
	d.Parse(`[0,[1,2,3],4]`)
	d.Reset()
	src := njson.Document{}
	e, _, _ := src.Parse(`[]`)
	a := d.Array()
	a.Append(e)
	b, err := a.AppendJSON(nil)
	if err != nil || string(b) != "[[]]" {
		fail(string(b), err)
	}'''))
bug("C05-rev","C05","a handle taken from a document that is then returned to a pool twice as deep or reset an even number of times","the revision of a document flips between two values only",
[("document.go","""	d.rev++
}

// get finds""","""	d.rev = (d.rev + 1) & 0x1f
}

// get finds""")],prog('''	d := njson.Document{}
	n, _, _ := d.Parse(`[1]`)
	for i := 0; i < 32; i++ {
		d.Reset()
		d.Parse(`{"secret":true}`)
	}
	if n.Type() != njson.TypeInvalid {
		fail("stale handle sees", n.Type())
	}'''))
bug("C05-docinsert","C05","inserting a handle from before a reset into a container of the refilled document","a stale handle given to Replace is resolved by id in the refilled document",
[("node.go","""func (n Node) Replace(i int, value Node) {
	if nn := n.get(); nn != nil && nn.info.IsArray() && 0 <= i && i < len(nn.values) {
		// Make a copy of the value if it's not Orphan to avoid recursion infinite loops.
		id := n.doc.copyOrAdopt(value.Document(), value.ID(), n.id)""","""func (n Node) Replace(i int, value Node) {
	if nn := n.get(); nn != nil && nn.info.IsArray() && 0 <= i && i < len(nn.values) {
		// Make a copy of the value if it's not Orphan to avoid recursion infinite loops.
		id := n.doc.copyOrAdopt(value.doc, value.ID(), n.id)""")],prog('''	d := njson.Document{}
	old, _, _ := d.Parse(`["old"]`)
	d.Reset()
	n, _, _ := d.Parse(`[1,2]`)
	n.Replace(0, old)
	b, _ := n.AppendJSON(nil)
	if string(b) != "[1,2]" {
		fail(string(b))
	}'''))
bug("C06-del","C06","deleting a key from an object whose last member repeats an earlier handle, i.e. deleting the last member","deleting the last of several members with one name removes the wrong one",
[("node.go","""		for i := range n.values {
			if n.values[i].key == key {
				if j := len(n.values) - 1; 0 <= j && j < len(n.values) {""","""		for i := range n.values {
			if len(n.values[i].key) == len(key) && (n.values[i].key == key || len(key) > 16 && n.values[i].key[:16] == key[:16]) {
				if j := len(n.values) - 1; 0 <= j && j < len(n.values) {""")],prog('''	d := njson.Document{}
	n, _, _ := d.Parse(`{"abcdefghijklmnopq":1,"abcdefghijklmnopr":2}`)
	n.Del("abcdefghijklmnopr")
	b, _ := n.AppendJSON(nil)
	if string(b) != `{"abcdefghijklmnopq":1}` {
		fail(string(b))
	}'''))
bug("C06-remove","C06","removing from an array right after it was cut with Slice, then appending","removing the first element reslices instead of moving, and the last element is blanked",
[("node.go","""		if j := i + 1; 0 <= j && j < len(n.values) {
			copy(n.values[i:], n.values[j:])
		}
		if j := len(n.values) - 1""","""		if j := i + 1; 0 <= j && j < len(n.values) {
			if cap(n.values) == len(n.values) && i == 0 {
				// no room behind it
				n.values = append([]V(nil), n.values[j:]...)
				return
			}
			copy(n.values[i:], n.values[j:len(n.values)-(cap(n.values)-len(n.values))/64])
		}
		if j := len(n.values) - 1""")],prog('''	d := njson.Document{}
	a := d.Array()
	for i := 0; i < 200; i++ {
		a.Append(d.Number(float64(i)))
	}
	for i := 0; i < 100; i++ {
		a.Remove(100)
	}
	a.Remove(98)
	b, _ := a.Index(98).AppendJSON(nil)
	if string(b) != "99" {
		fail(string(b))
	}'''))
bug("C07-adopt","C07","inserting a free-standing value that holds the destination two levels up","a free value is moved into its own grandchild, so the document becomes endless",
[("node.go","""		vv := nn.values
		for _, v := range values {
			id := n.doc.copyOrAdopt(v.Document(), v.ID(), n.id)
			if id < maxUint {
				vv = append(vv, V{
					id:  id,
					key: "",
				})
			}
		}
		// copyOrAdopt might grow nodes array invalidating nn pointer
		n.doc.nodes[n.id].values = vv""","""		for _, v := range values {
			id := n.doc.copyOrAdopt(v.Document(), v.ID(), n.id)
			if id < maxUint {
				nn.values = append(nn.values, V{
					id:  id,
					key: "",
				})
			}
		}""")],prog('''	d := njson.Document{}
	a, _, _ := d.Parse(`[1]`)
	src := njson.Document{}
	big, _, _ := src.Parse(`[[1,2,3],[4,5,6],{"a":7}]`)
	a.Append(big, d.Null())
	b, _ := a.AppendJSON(nil)
	if string(b) != `[1,[[1,2,3],[4,5,6],{"a":7}],null]` {
		fail(string(b))
	}'''))
bug("C07-contains","C07","setting a parsed value that sits inside another value of the same document","a value that sits in an object is moved instead of copied, so one value sits in two places",
[("document.go","""	for i := range n.values {
		v := &n.values[i]
		n := other.get(v.id)
		if n != nil {
			values = appendV(values, v.key, d.ncopy(other, n), numV)
			numV++
		}
	}
	d.nodes[id].values = values[:numV]
	return id
}

// func""","""	for i := range n.values {
		v := &n.values[i]
		n := other.get(v.id)
		if n != nil {
			if other == d && n.info.IsString() && len(n.values) == 0 {
				// strings never change, the copy may refer to the same node
				values = appendV(values, v.key, v.id, numV)
			} else {
				values = appendV(values, v.key, d.ncopy(other, n), numV)
			}
			numV++
		}
	}
	d.nodes[id].values = values[:numV]
	return id
}

// func""")],prog('''	d := njson.Document{}
	n, _, _ := d.Parse(`{"a":["x"]}`)
	n.Set("b", n.Get("a"))
	n.Get("b").Index(0).SetInt(1)
	b, _ := n.AppendJSON(nil)
	if string(b) != `{"a":["x"],"b":[1]}` {
		fail(string(b))
	}'''))
bug("C08-dup","C08","an object with a repeated key, read by path","lookup by path takes the last of several members with one name",
[("document.go","""				for i := range n.values {
					v = &n.values[i]
					if v.key == key {
						id = v.id
						continue lookup
					}
				}""","""				for i := len(n.values) - 1; 0 <= i; i-- {
					v = &n.values[i]
					if v.key == key {
						id = v.id
						continue lookup
					}
				}""")],prog('''	d := njson.Document{}
	n, _, _ := d.Parse(`{"a":{"b":1},"a":{"b":2}}`)
	if n.Lookup("a", "b").Raw() != n.Get("a").Get("b").Raw() {
		fail("Lookup and Get disagree")
	}'''))
bug("C08-race","C08","two goroutines reading string members of one document","reading a string caches its decoded form in the node",
[("node.go","""func (n Node) Unescaped() string {
	if n := n.get(); n != nil && n.info.IsString() {
		return strjson.Unescaped(n.raw)
	}""","""func (n Node) Unescaped() string {
	if n := n.get(); n != nil && n.info.IsString() {
		s := strjson.Unescaped(n.raw)
		if len(s) == len(n.raw) {
			// Nothing to unescape, drop the reference to the larger input
			n.raw = s
		}
		return s
	}""")],prog('''	d := njson.Document{}
	n, _, _ := d.Parse(`{"a":"text"}`)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); n.Get("a").Unescaped() }()
	}
	wg.Wait()
	_ = fail''',('sync','github.com/alxarch/njson')),demosh=open('/verif/tools/demo_tmpl.sh').read().replace('go run .','go run -race .'))
bug("C09-sep","C09","a line separator right before the end of the string, appended to a buffer","the buffer form skips a separator that directly follows an escaped character",
[("strjson/escape.go","""			r, size = utf8.DecodeRuneInString(s[i:])
			switch r {
			case utf8.RuneError, uLineSeparator, uParagraphSeparator:
				if size == 0 {
					continue
				}
				if 0 <= pos && pos < i {
					dst = append""","""			r, size = utf8.DecodeRuneInString(s[i:])
			if size == 3 && pos == i && i > 0 {
				i += 2
				continue
			}
			switch r {
			case utf8.RuneError, uLineSeparator, uParagraphSeparator:
				if size == 0 {
					continue
				}
				if 0 <= pos && pos < i {
					dst = append""")],prog('''	if s := strjson.AppendEscaped(nil, "a\\n\\u2028", false); string(s) != `a\\n\\u2028` {
		fail(string(s))
	}''',('github.com/alxarch/njson/strjson',)))
bug("C10-pair","C10","a surrogate pair whose second half is written with an upper-case hex digit","the second half is read without its top digit check",
[("strjson/unescape.go","""				r2 |= rune(fromHex(ss[10]))
				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
					i += 6
				}
			} else {
				r1 = utf8.RuneError
			}
		}
		b.WriteRune(r1)""","""				r2 |= rune(fromHex(ss[10]))
				if r1 = utf16.DecodeRune(r1, r2&0xdfff); r1 != utf8.RuneError {
					i += 6
				}
			} else {
				r1 = utf8.RuneError
			}
		}
		b.WriteRune(r1)""")],prog('''	if s := strjson.Unescaped(`\\ud83d\\ufe00`); s != "\\ufffd\\ufe00" {
		fail(fmt.Sprintf("%q", s))
	}''',('github.com/alxarch/njson/strjson',)))
bug("C10-append","C10","appending to a buffer that has just enough room","appending clobbers bytes behind the result",
[("strjson/unescape.go","""	if n = offset + len(s); cap(dst) < n {""","""	if n = offset + len(s); cap(dst)+3 < n {""")],prog('''	back := make([]byte, 6)
	s := strjson.AppendUnescaped(back[:0:4], `abcdef`)
	if string(s) != "abcdef" {
		fail(fmt.Sprintf("%q", s))
	}''',('github.com/alxarch/njson/strjson',)))
bug("C11-digits","C11","a number with a fraction and more than 19 digits, or an exponent sign repeated","signs inside exponents are accepted after zeros",
[("numjson/numjson.go","""			if jj == 0 && (c == '-' || c == '+') && (s[i-1] == 'e' || s[i-1] == 'E') {""","""			if exp == 0 && (c == '-' || c == '+') {""")],prog('''	if f := numjson.ParseFloat("1e0-5"); f == f {
		fail(f)
	}''',('github.com/alxarch/njson/numjson',)))
bug("C12-neg","C12","the most negative 64-bit integer","-0 for unsigned and the lower limit",
[("numjson/numjson.go","""func ParseUint(s string) (uint64, bool) {""","""func ParseUint(s string) (uint64, bool) {
	if len(s) > 0 && len(s) < 19 {
		// Short numbers are exact as floats unless they have decimals
		if f := ParseFloat(s); 0 <= f && f < 1<<63 && f == math.Trunc(f) {
			return uint64(f), true
		}
	}""")],prog('''	if u, ok := numjson.ParseUint("9007199254740993"); !ok || u != 9007199254740993 {
		fail(u, ok)
	}''',('github.com/alxarch/njson/numjson',)))
bug("C13-exp","C13","a number below 1e-6 with a one-digit exponent that is appended to text ending like an exponent","the exponent is tidied also for two digit exponents ending in zero",
[("numjson/format.go","""len(buf) == 4 && buf[0] == 'e' && buf[1] == '-' && buf[2] == '0' {""","""len(buf) == 4 && (buf[0] == 'e' || buf[0] == 'E') && (buf[1] == '-' && buf[2] == '0' || bits == 32 && buf[2] == '3' && buf[3] == '0') {""")],prog('''	f := float32(1.5e30)
	s := numjson.FormatFloat(float64(f), 32)
	if s != "1.5e+30" {
		fail(s)
	}''',('github.com/alxarch/njson/numjson',)))
bug("C14-null","C14","an array or object holding an explicit null next to other values","null members of nested objects are dropped by the generic conversion",
[("document.go","""	for _, v := range values {
		m[strjson.Unescaped(v.key)], ok = d.toInterface(v.id)
		if !ok {
			return nil, false
		}
	}""","""	for i := len(values) - 1; i >= 0; i-- {
		v := &values[i]
		key := strjson.Unescaped(v.key)
		if m[key] != nil {
			// a later member wins
			continue
		}
		m[key], ok = d.toInterface(v.id)
		if !ok {
			return nil, false
		}
	}""")],prog('''	d := njson.Document{}
	n, _, _ := d.Parse(`{"a":1,"a":null}`)
	x, ok := n.ToInterface()
	if m := x.(map[string]interface{}); !ok || m["a"] != nil {
		fail(x)
	}'''))
bug("C15-early","C15","a callback that uses the library itself while it holds its bytes","the buffer goes back to the pool before the unmarshaler has run",
[("node.go","""	data, err = n.AppendJSON(data[:0])
	if err == nil {
		err = u.UnmarshalJSON(data)
	}
	bufferpool.Put(data)
	return""","""	data, err = n.AppendJSON(data[:0])
	bufferpool.Put(data)
	if err == nil {
		err = u.UnmarshalJSON(data)
	}
	return""")],'''
package main

import (
	"fmt"
	"io"
	"os"
	"runtime"

	"github.com/alxarch/njson"
)

type u struct {
	n   njson.Node
	bad bool
}

func (x *u) UnmarshalJSON(b []byte) error {
	before := string(b)
	for i := 0; i < 50; i++ {
		x.n.PrintJSON(io.Discard)
	}
	x.bad = string(b) != before
	return nil
}

func main() {
	runtime.GOMAXPROCS(1)
	d := njson.Document{}
	n, _, _ := d.Parse(`[[1,2,3],{"other":"text"}]`)
	x := &u{n: n.Index(1)}
	n.Index(0).WrapUnmarshalJSON(x)
	if x.bad {
		fmt.Println("the bytes changed while the callback held them")
		os.Exit(1)
	}
}
''')
bug("C15-shortwrite","C15","a writer that takes only part of the bytes","printing retries a short write",
[("node.go","""	if b, err = a.AppendJSON(b[:0]); err == nil {
		n, err = w.Write(b)
	}""","""	if b, err = a.AppendJSON(b[:0]); err == nil || len(b) > 512 {
		// large output is flushed as far as it got
		n, _ = w.Write(b)
	}""")],prog('''	a := app{}
	w := &cw{}
	n, err := njson.PrintJSON(w, a)
	if n != 0 || err == nil || w.n != 0 {
		fail(n, err, w.n)
	}
}

type cw struct{ n int }

func (c *cw) Write(p []byte) (int, error) { c.n += len(p); return len(p), nil }

type app struct{}

func (app) AppendJSON(b []byte) ([]byte, error) {
	return append(b, strings.Repeat("x", 1000)...), fmt.Errorf("no")''',('strings','github.com/alxarch/njson')))
