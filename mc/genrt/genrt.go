// Package genrt runs the methods that the code generator wrote for a type and compares them with the
// reflective codec of a twin type without methods.
package genrt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"net"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
)

// Entry is a type with generated methods.
type Entry struct {
	Def       string      // what the type is, for people
	T         interface{} // *T, with generated methods
	Plain     interface{} // *P, the same type without methods, with explicit tags
	Append    func(x interface{}, out []byte) ([]byte, error)
	Unmarshal func(x interface{}, n njson.Node) error
	Options   unjson.Options // of the reflective codec
	Depth     int            // of the values
	Docs      []string       // more documents
	Raw       bool           // there are fields that hold escaped strings
}

// implementors are what fields of interface types with methods hold.
var implementors = []interface{}{big.NewInt(12), new(big.Int).Lsh(big.NewInt(-1), 70), &time.Time{}, &net.IP{127, 0, 0, 1}, &net.IP{1}}

// Values lists values of a type: for scalars the boundaries, for containers empty ones and ones with every value of
// the element, for structs all combinations if these are few and otherwise one field at a time and all at once.
func Values(typ reflect.Type, depth int) (vals []reflect.Value) {
	add := func(xs ...interface{}) {
		for _, x := range xs {
			vals = append(vals, reflect.ValueOf(x).Convert(typ))
		}
	}
	vals = append(vals, reflect.Zero(typ))
	if typ.PkgPath() == "time" && typ.Name() == "Time" {
		var t = reflect.New(typ)
		for _, s := range []string{"2006-01-02T15:04:05Z", "1999-12-31T23:59:59.123456789+02:00"} {
			if err := t.Interface().(json.Unmarshaler).UnmarshalJSON([]byte(`"` + s + `"`)); err != nil {
				panic(err)
			}
			x := reflect.New(typ).Elem()
			x.Set(t.Elem())
			vals = append(vals, x)
		}
		return
	}
	switch typ.Kind() {
	case reflect.Bool:
		add(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := uint(typ.Bits() - 1)
		add(int64(1), int64(-1), int64(math.MaxInt64)>>(63-bits), int64(-1)<<bits)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		add(uint64(1), uint64(math.MaxUint64)>>(64-uint(typ.Bits())))
	case reflect.Float32:
		add(1.5, -3e38, 1e-40, 1e21)
		vals = append(vals, reflect.ValueOf(float32(0.1)).Convert(typ))
	case reflect.Float64:
		add(1.5, -1.7976931348623157e308, 5e-324, 1e21, 0.1, 1e20, 1e-7, 12345678901234567.0)
	case reflect.String:
		add("a", "q\"b\\s/", "é\u2028<&>", "\x00\n\x1f\x7f", "12", "null", "😀")
	case reflect.Interface:
		if typ.NumMethod() == 0 {
			for _, x := range []interface{}{true, 1.5, "s\"", []interface{}{}, []interface{}{nil, 1.0}, map[string]interface{}{"a": "b", "q\"": nil}} {
				v := reflect.New(typ).Elem()
				v.Set(reflect.ValueOf(x))
				vals = append(vals, v)
			}
		}
		for _, x := range implementors {
			if v := reflect.New(typ).Elem(); typ.NumMethod() > 0 && reflect.TypeOf(x).Implements(typ) {
				v.Set(reflect.ValueOf(x))
				vals = append(vals, v)
			}
		}
	case reflect.Ptr:
		if depth > 0 {
			for _, e := range Values(typ.Elem(), depth-1) {
				p := reflect.New(typ.Elem())
				p.Elem().Set(e)
				vals = append(vals, p.Convert(typ))
			}
		}
	case reflect.Slice:
		vals = append(vals, reflect.MakeSlice(typ, 0, 3))
		if depth > 0 {
			elems := Values(typ.Elem(), depth-1)
			for _, e := range elems {
				s := reflect.MakeSlice(typ, 1, 2)
				s.Index(0).Set(e)
				vals = append(vals, s)
			}
			s := reflect.MakeSlice(typ, 0, 8)
			for i := len(elems) - 1; i >= 0; i-- {
				s = reflect.Append(s, elems[i])
			}
			vals = append(vals, s)
		}
	case reflect.Map:
		vals = append(vals, reflect.MakeMap(typ))
		if depth > 0 {
			keys := Values(typ.Key(), 0)
			elems := Values(typ.Elem(), depth-1)
			all := reflect.MakeMap(typ)
			for i, e := range elems {
				m := reflect.MakeMap(typ)
				m.SetMapIndex(keys[i%len(keys)], e)
				vals = append(vals, m)
				all.SetMapIndex(keys[i%len(keys)], e)
			}
			for i, k := range keys {
				all.SetMapIndex(k, elems[i%len(elems)])
			}
			vals = append(vals, all)
		}
	case reflect.Struct:
		var fields [][]reflect.Value
		var index []int
		n := 1
		for i := 0; i < typ.NumField(); i++ {
			f := typ.Field(i)
			if f.PkgPath != "" {
				continue
			}
			d := depth
			if !f.Anonymous {
				d--
			}
			if depth <= 0 {
				d = 0
			}
			v := Values(f.Type, d)
			fields = append(fields, v)
			index = append(index, i)
			if n < 1000 {
				n *= len(v)
			}
		}
		make := func(pick func(i int) int) {
			x := reflect.New(typ).Elem()
			for i, f := range index {
				x.Field(f).Set(fields[i][pick(i)])
			}
			vals = append(vals, x)
		}
		if n <= 150 {
			for k := 1; k < n; k++ {
				r := k
				picks := map[int]int{}
				for i := range fields {
					picks[i] = r % len(fields[i])
					r /= len(fields[i])
				}
				make(func(i int) int { return picks[i] })
			}
			return
		}
		for i := range fields {
			for j := 1; j < len(fields[i]); j++ {
				make(func(k int) int {
					if k == i {
						return j
					}
					return 0
				})
				if j == len(fields[i])-1 || len(fields[i]) < 20 {
					make(func(k int) int {
						if k == i {
							return j
						}
						return len(fields[k]) - 1
					})
				}
			}
		}
	}
	return
}

// parseJSON decodes for comparison: numbers stay text, objects keep the order of members.
type member struct {
	k string
	v interface{}
}

func parseJSON(b []byte) (interface{}, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	v, err := parseVal(dec)
	if err == nil {
		if _, e := dec.Token(); e == nil {
			err = fmt.Errorf("more than one value")
		}
	}
	return v, err
}

func parseVal(dec *json.Decoder) (interface{}, error) {
	tok, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch tok {
	case json.Delim('['):
		a := []interface{}{}
		for dec.More() {
			v, err := parseVal(dec)
			if err != nil {
				return nil, err
			}
			a = append(a, v)
		}
		_, err = dec.Token()
		return a, err
	case json.Delim('{'):
		o := []member{}
		for dec.More() {
			k, err := dec.Token()
			if err != nil {
				return nil, err
			}
			v, err := parseVal(dec)
			if err != nil {
				return nil, err
			}
			o = append(o, member{k.(string), v})
		}
		_, err = dec.Token()
		return o, err
	}
	return tok, nil
}

// sameJSON compares the meaning of two JSON values; ordered objects must have their members in the same order.
func sameJSON(a, b interface{}, ordered bool) bool {
	switch a := a.(type) {
	case json.Number:
		b, ok := b.(json.Number)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		x, err1 := strconv.ParseFloat(string(a), 64)
		y, err2 := strconv.ParseFloat(string(b), 64)
		return err1 == nil && err2 == nil && x == y && strings.ContainsAny(string(a)+string(b), ".eE")
	case []interface{}:
		b, ok := b.([]interface{})
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameJSON(a[i], b[i], ordered) {
				return false
			}
		}
		return true
	case []member:
		b, ok := b.([]member)
		if !ok || len(a) != len(b) {
			return false
		}
		if !ordered {
			sort.Slice(a, func(i, j int) bool { return a[i].k < a[j].k })
			sort.Slice(b, func(i, j int) bool { return b[i].k < b[j].k })
		}
		for i := range a {
			if a[i].k != b[i].k || !sameJSON(a[i].v, b[i].v, ordered) {
				return false
			}
		}
		return true
	}
	return a == b
}

// has reports if a type contains a certain type.
func has(t reflect.Type, seen map[reflect.Type]bool, is func(t reflect.Type) bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if is(t) {
		return true
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return has(t.Elem(), seen, is)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if has(t.Field(i).Type, seen, is) {
				return true
			}
		}
	}
	return false
}

type runner struct {
	e        *Entry
	typ      reflect.Type
	plain    reflect.Type
	enc      unjson.Encoder
	dec      unjson.Decoder
	ordered  bool
	duration bool
	// durations: no other plain values are in the type
	durations bool
	Cases    int
	Accepted int
	Msg      map[string]string // first failure of each kind
}

func (r *runner) fail(kind, format string, args ...interface{}) {
	if _, ok := r.Msg[kind]; !ok {
		r.Msg[kind] = fmt.Sprintf(format, args...)
	}
}

func show(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

// as views a value as one of a type of the same layout; types that refer to themselves do not convert.
func as(v reflect.Value, typ reflect.Type) reflect.Value {
	if !v.CanAddr() {
		a := reflect.New(v.Type()).Elem()
		a.Set(v)
		v = a
	}
	return reflect.NewAt(typ, unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (r *runner) encode(v reflect.Value) (doc []byte) {
	x := reflect.New(r.typ)
	x.Elem().Set(as(v, r.typ))
	p := reflect.New(r.plain)
	p.Elem().Set(v)
	r.Cases++
	want, werr := r.enc.Encode(nil, p.Interface())
	if r.e.Append == nil {
		if werr != nil {
			return nil
		}
		return want
	}
	var got []byte
	var gerr error
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.fail("panic", "appending %s panics: %v", show(p.Interface()), e)
			}
		}()
		got, gerr = r.e.Append(x.Interface(), []byte("prefix"))
	}()
	if (gerr == nil) != (werr == nil) {
		r.fail("append-error", "appending %s: generated method %q, %v; reflective encoder %s, %v", show(p.Interface()), got, gerr, want, werr)
		return nil
	}
	if werr != nil {
		return nil
	}
	if !bytes.HasPrefix(got, []byte("prefix")) {
		r.fail("append-prefix", "appending %s: the output %q lacks what was there before", show(p.Interface()), got)
		return nil
	}
	got = got[6:]
	if r.e.Raw && !json.Valid(want) {
		// not a properly escaped string
		if !bytes.Equal(got, want) {
			r.fail("append", "appending %s: generated method %s, reflective encoder %s", show(p.Interface()), got, want)
		}
		return nil
	}
	a, err := parseJSON(got)
	if err != nil || !json.Valid(got) {
		r.fail("append-invalid", "appending %s gives %s: %v", show(p.Interface()), got, err)
		return nil
	}
	b, err := parseJSON(want)
	if err != nil {
		r.fail("reflective", "reflective encoder of %s gives %s: %v", show(p.Interface()), want, err)
		return nil
	}
	if !sameJSON(a, b, r.ordered) {
		r.fail("append", "appending %s: generated method %s, reflective encoder %s", show(p.Interface()), got, want)
	}
	return want
}

func (r *runner) decode(doc string, init reflect.Value) {
	if r.e.Raw && strings.Contains(doc, "\\") || r.duration && !r.durations && strings.Contains(doc, `"1h"`) {
		return // the generated methods differ on purpose
	}
	ref := doc
	if r.durations {
		// the reflective decoder reads the number that a text stands for
		ref = anyString.ReplaceAllStringFunc(doc, func(s string) string {
			var text string
			if strings.HasSuffix(s, ":") || json.Unmarshal([]byte(s), &text) != nil {
				return s
			}
			if d, err := time.ParseDuration(text); err == nil {
				return strconv.FormatInt(int64(d), 10)
			}
			return `"x"`
		})
	}
	d := njson.Document{}
	n, _, err := d.Parse(doc)
	if err != nil {
		r.fail("doc", "document %s: %v", doc, err)
		return
	}
	r.Cases++
	x := reflect.New(r.typ)
	p := reflect.New(r.plain)
	if init.IsValid() {
		x.Elem().Set(as(clone(init), r.typ))
		p.Elem().Set(clone(init))
	}
	from := ""
	if init.IsValid() && !init.IsZero() {
		from = " into " + show(p.Interface())
	}
	var werr error
	if doc != "null" { // null leaves the value as it is
		m := n
		if ref != doc {
			e := njson.Document{}
			if m, _, err = e.Parse(ref); err != nil {
				r.fail("doc", "document %s: %v", ref, err)
				return
			}
		}
		werr = r.dec.Decode(p.Interface(), m)
	}
	var gerr error
	func() {
		defer func() {
			if e := recover(); e != nil {
				gerr = fmt.Errorf("panic: %v", e)
				r.fail("panic", "unmarshaling %s%s panics: %v", doc, from, e)
			}
		}()
		gerr = r.e.Unmarshal(x.Interface(), n)
	}()
	if (gerr == nil) != (werr == nil) {
		r.fail("unmarshal-error", "unmarshaling %s%s: generated method %v, reflective decoder %v", doc, from, gerr, werr)
		return
	}
	if werr != nil {
		return
	}
	r.Accepted++
	// nil and empty slices are the same JSON
	noEmpty = true
	defer func() { noEmpty = false }()
	got, want := clone(as(x.Elem(), r.plain)).Interface(), clone(p.Elem()).Interface()
	if !reflect.DeepEqual(got, want) {
		r.fail("unmarshal", "unmarshaling %s%s: generated method %s %#v, reflective decoder %s %#v", doc, from, show(got), got, show(want), want)
	}
}

var anyString = regexp.MustCompile(`"(?:[^"\\]|\\.)*"\s*:?`)

// noEmpty makes clone replace empty slices by nil.
var noEmpty bool

// clone copies a value deeply.
func clone(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(clone(v.Elem()))
			c.Set(p.Convert(v.Type()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			c.Set(clone(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() && !(noEmpty && v.Len() == 0) {
			c.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Cap()))
			for i := 0; i < v.Len(); i++ {
				c.Index(i).Set(clone(v.Index(i)))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			c.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				c.SetMapIndex(k, clone(v.MapIndex(k)))
			}
		}
	case reflect.Struct:
		c.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				c.Field(i).Set(clone(v.Field(i)))
			}
		}
	default:
		c.Set(v)
	}
	return c
}

var junk = []string{`null`, `true`, `false`, `0`, `-1`, `1.5`, `1e3`, `128`, `-129`, `256`, `65536`, `4294967296`, `9223372036854775808`, `18446744073709551616`, `1e400`, `""`, `"x"`, `"12"`, `"true"`, `"1h"`, `"\u00e9\n"`, `"2006-01-02T15:04:05Z"`,
	`[]`, `[1]`, `[null]`, `["a"]`, `[[1]]`, `[{"A":1}]`, `[true,false]`, `{}`, `{"a":1}`, `{"A":1}`, `{"a":null}`, `{"B":"x"}`, `{"q\"":"v"}`, `{"a":[1]}`, `{"a":{"A":1}}`, `{"":0}`, `{"x":true,"x":false}`, `{"V":3}`}

// texts renders the members of an object document.
func objectMembers(doc []byte) (keys []string, vals []string, ok bool) {
	dec := json.NewDecoder(bytes.NewReader(doc))
	if tok, err := dec.Token(); err != nil || tok != json.Delim('{') {
		return nil, nil, false
	}
	for dec.More() {
		k, err := dec.Token()
		if err != nil {
			return nil, nil, false
		}
		var raw json.RawMessage
		if err := dec.Decode(&raw); err != nil {
			return nil, nil, false
		}
		kb, _ := json.Marshal(k)
		keys = append(keys, string(kb))
		vals = append(vals, string(raw))
	}
	return keys, vals, true
}

func object(keys, vals []string) string {
	var b strings.Builder
	b.WriteByte('{')
	for i := range keys {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(keys[i] + ":" + vals[i])
	}
	b.WriteByte('}')
	return b.String()
}

func (r *runner) run() {
	r.typ = reflect.TypeOf(r.e.T).Elem()
	r.plain = reflect.TypeOf(r.e.Plain).Elem()
	r.Msg = map[string]string{}
	r.ordered = !has(r.plain, map[reflect.Type]bool{}, func(t reflect.Type) bool { return t.Kind() == reflect.Map || t.Kind() == reflect.Interface })
	r.duration = has(r.plain, map[reflect.Type]bool{}, func(t reflect.Type) bool { return t == reflect.TypeOf(time.Duration(0)) })
	r.durations = r.duration && !has(r.plain, map[reflect.Type]bool{}, func(t reflect.Type) bool {
		switch t.Kind() {
		case reflect.String, reflect.Interface:
			return true
		case reflect.Int64:
			return t != reflect.TypeOf(time.Duration(0))
		default:
			return t.Kind() < reflect.Int64 || t.Kind() > reflect.Int64 && t.Kind() < reflect.Array
		}
	})
	cache := unjson.Cache{Options: r.e.Options}
	var err error
	if r.enc, err = cache.Encoder(r.plain); err == nil {
		r.dec, err = cache.Decoder(reflect.PtrTo(r.plain))
	}
	if err != nil {
		r.fail("reflective", "reflective codec: %v", err)
		return
	}
	// a nil pointer is written as null
	r.Cases++
	if r.e.Append == nil {
		// the method was refused
	} else if got, err := r.e.Append(reflect.Zero(reflect.PtrTo(r.typ)).Interface(), nil); err != nil || string(got) != "null" {
		r.fail("nil", "appending a nil pointer: %q, %v", got, err)
	}
	vals := Values(r.plain, r.e.Depth)
	docs := map[string]bool{}
	var order []string
	doc := func(s string) {
		if !docs[s] {
			docs[s] = true
			order = append(order, s)
		}
	}
	var full []byte
	for _, v := range vals {
		if d := r.encode(v); d != nil {
			if len(d) > len(full) {
				full = d
			}
			doc(string(d))
		}
	}
	for _, d := range r.e.Docs {
		doc(d)
	}
	for _, j := range junk {
		doc(j)
	}
	if keys, vals, ok := objectMembers(full); ok {
		for i := range keys {
			for _, j := range junk {
				one := append([]string(nil), vals...)
				one[i] = j
				doc(object(keys, one))
				doc(object(keys[i:i+1], []string{j}))
			}
			// inner members
			if ks, vs, ok := objectMembers([]byte(vals[i])); ok {
				for k := range ks {
					for _, j := range junk {
						in := append([]string(nil), vs...)
						in[k] = j
						doc(object(keys[i:i+1], []string{object(ks, in)}))
					}
				}
			}
			// twice, with another key around, as a different case of letters
			doc(object([]string{keys[i], `"zzz"`, keys[i]}, []string{"null", `{"A":[1]}`, vals[i]}))
			doc(object([]string{keys[i], keys[i]}, []string{vals[i], vals[i]}))
			doc(object([]string{strings.ToUpper(keys[i]), strings.ToLower(keys[i])}, []string{"1", `"u"`}))
		}
		var kr, vr []string
		for i := range keys {
			kr = append([]string{keys[i], `"no"`}, kr...)
			vr = append([]string{vals[i], "0"}, vr...)
		}
		doc(object(kr, vr))
	}
	inits := []reflect.Value{{}}
	inits = append(inits, vals[len(vals)-1])
	if len(vals) > 2 {
		inits = append(inits, vals[len(vals)/2])
	}
	for _, d := range order {
		if r.e.Unmarshal == nil {
			break
		}
		for _, init := range inits {
			r.decode(d, init)
		}
	}
}

// Main runs all entries and prints a line per failure and one per entry.
func Main(entries []Entry) {
	res := make([]*runner, len(entries))
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < 1; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				res[i] = &runner{e: &entries[i]}
				res[i].run()
			}
		}()
	}
	for i := range entries {
		next <- i
	}
	close(next)
	wg.Wait()
	type out struct {
		I               int
		Cases, Accepted int
		Msg             map[string]string
	}
	enc := json.NewEncoder(os.Stdout)
	for i, r := range res {
		enc.Encode(out{i, r.Cases, r.Accepted, r.Msg})
	}
}
