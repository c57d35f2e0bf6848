package checks

import (
	"encoding"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"

	"verif/mc/model"
)

// jt is what a Go value should denote.
type jt struct {
	kind byte
	s    string   // strings: the text; numbers written as given (custom tokens)
	raw  bool     // string written verbatim
	html bool     // html escaping asked for
	any  bool     // produced by the type's own marshaler: escaping is not judged
	i    *big.Int // integers
	f    float64  // floats
	bits int      // width of floats
	vals []*jt
	keys []string
}

// encRes: err means that encoding must fail; skip: not specified.
type encErr int

const (
	encOK encErr = iota
	encFail
	encSkip
	encMay // may be refused, otherwise as specified
)

type encModel struct {
	o      unjson.Options
	nonstd bool // used something encoding/json does differently
	unspec bool // met something that is not specified, but must not panic
}

func (m *encModel) tag() string {
	if m.o.Tag == "" {
		return "json"
	}
	return m.o.Tag
}

func (m *encModel) method() string {
	if m.o.OmitMethod == "" {
		return "Omit"
	}
	return m.o.OmitMethod
}

var (
	tAppender = reflect.TypeOf((*njson.Appender)(nil)).Elem()
	tMarshal  = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	tText     = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
)

// fromVal turns parsed JSON into jt.
func fromJSON(v *model.Val) *jt {
	x := &jt{kind: v.Kind, any: true}
	switch v.Kind {
	case model.String:
		x.s = model.Unescape(v.Raw)
	case model.Number:
		if i := intWant(v.Raw); i != nil {
			x.i = i
		} else {
			x.f, x.bits = floatWant(v.Raw), 64
		}
	case model.Bool:
		x.s = v.Raw
	}
	for i, w := range v.Vals {
		if v.Kind == model.Object {
			x.keys = append(x.keys, model.Unescape(v.Keys[i]))
		}
		x.vals = append(x.vals, fromJSON(w))
	}
	return x
}

func selfMarshals(t reflect.Type) bool {
	return t.Implements(tAppender) || t.Implements(tMarshal) || t.Implements(tText)
}

// marshalSelf calls the value's own marshaler; done is false when it has none.
func (m *encModel) marshalSelf(v reflect.Value) (*jt, encErr, bool) {
	t := v.Type()
	if !selfMarshals(t) {
		return nil, 0, false
	}
	if (t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface) && v.IsNil() {
		return &jt{kind: model.Null}, encOK, true
	}
	if t.Kind() == reflect.Interface && v.Elem().Kind() == reflect.Ptr && v.Elem().IsNil() {
		m.nonstd = true
		return &jt{kind: model.Null}, encOK, true
	}
	var b []byte
	var err error
	switch {
	case t.Implements(tAppender):
		m.nonstd = true
		b, err = v.Interface().(njson.Appender).AppendJSON(nil)
	case t.Implements(tMarshal):
		b, err = v.Interface().(json.Marshaler).MarshalJSON()
	default:
		b, err = v.Interface().(encoding.TextMarshaler).MarshalText()
		if err != nil {
			return nil, encFail, true
		}
		return &jt{kind: model.String, s: model.ValidUTF8(string(b)), any: true}, encOK, true
	}
	if err != nil || !json.Valid(b) {
		return nil, encFail, true
	}
	pv, rest, perr := model.Parse(string(b))
	if perr != nil || strings.TrimSpace(rest) != "" {
		return nil, encSkip, true
	}
	return fromJSON(pv), encOK, true
}

type mfield struct {
	name                  string
	omit, html, raw, skip bool
	tagged                bool
	index                 []int // path from the outer struct
	typ                   reflect.Type
}

// members lists the fields of a struct that are its members, embedded structs included: of those with one name the
// shallowest; of several shallowest ones the only tagged one; otherwise none.
func (m *encModel) members(t reflect.Type) (out []mfield) {
	type level struct {
		t     reflect.Type
		index []int
	}
	var all [][]mfield
	seen := map[reflect.Type]bool{}
	for cur := []level{{t, nil}}; len(cur) > 0; {
		var next []level
		var here []mfield
		for _, l := range cur {
			seen[l.t] = true
		}
		for _, l := range cur {
			for i := 0; i < l.t.NumField(); i++ {
				f := l.t.Field(i)
				index := append(append([]int{}, l.index...), i)
				x := m.field(f)
				ft := f.Type
				if ft.Kind() == reflect.Ptr {
					ft = ft.Elem()
				}
				if f.Anonymous && ft.Kind() == reflect.Struct && !x.tagged && f.Tag.Get(m.tag()) != "-" {
					if !seen[ft] {
						for _, l := range next {
							if l.t == ft {
								m.nonstd = true // encoding/json looks into it once only
							}
						}
						next = append(next, level{ft, index})
					}
					continue
				}
				if f.Anonymous && x.skip && x.tagged {
					m.nonstd = true // an embedded struct with a name is a field: unexported ones are skipped
				}
				if !x.skip {
					x.index, x.typ = index, f.Type
					here = append(here, x)
				}
			}
		}
		all = append(all, here)
		cur = next
	}
	taken := map[string]bool{}
	for _, here := range all {
		by := map[string][]mfield{}
		for _, f := range here {
			by[f.name] = append(by[f.name], f)
		}
		for _, f := range here {
			fs := by[f.name]
			if taken[f.name] {
				continue
			}
			n := 0
			for _, g := range fs {
				if g.tagged {
					n++
				}
			}
			if len(fs) == 1 || n == 1 && f.tagged {
				out = append(out, f)
			}
		}
		for name := range by {
			taken[name] = true
		}
	}
	return
}

// at finds the field, or nothing behind a nil pointer.
func (f *mfield) at(v reflect.Value) (reflect.Value, bool) {
	for k, i := range f.index {
		if k > 0 && v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v, true
}

func (m *encModel) field(f reflect.StructField) mfield {
	x := mfield{name: f.Name}
	if f.PkgPath != "" {
		x.skip = true
	}
	x.omit = m.o.OmitEmpty
	s, ok := f.Tag.Lookup(m.tag())
	if !ok {
		return x
	}
	if s == "-" {
		x.skip = true
		return x
	}
	parts := strings.Split(s, ",")
	if parts[0] != "" && !strings.ContainsAny(parts[0], "\"\\'`") {
		x.name = parts[0]
		x.tagged = true
	}
	for _, p := range parts[1:] {
		switch p {
		case "omitempty":
			x.omit = true
		case "html":
			x.html = true
		case "8bit":
			x.raw = true
		}
	}
	return x
}

// enc computes what v denotes.
func (m *encModel) enc(v reflect.Value, html, raw bool) (*jt, encErr) {
	t := v.Type()
	if t.Kind() != reflect.Ptr {
		if v.CanAddr() && t.Kind() != reflect.Interface {
			if x, e, done := m.marshalSelf(v.Addr()); done {
				return x, e
			}
		}
		if x, e, done := m.marshalSelf(v); done {
			return x, e
		}
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return &jt{kind: model.Null}, m.typeOK(t.Elem())
		}
		return m.enc(v.Elem(), html, raw)
	case reflect.Interface:
		if t.NumMethod() != 0 {
			return nil, encSkip
		}
		if v.IsNil() {
			return &jt{kind: model.Null}, encOK
		}
		e := v.Elem()
		if e.Kind() == reflect.Ptr && e.IsNil() {
			return &jt{kind: model.Null}, encOK
		}
		if e.Kind() == reflect.Ptr {
			return m.enc(e.Elem(), false, false)
		}
		return m.enc(e, false, false)
	case reflect.Bool:
		return &jt{kind: model.Bool, s: strconv.FormatBool(v.Bool())}, encOK
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &jt{kind: model.Number, i: big.NewInt(v.Int())}, encOK
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &jt{kind: model.Number, i: new(big.Int).SetUint64(v.Uint())}, encOK
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		switch {
		case math.IsNaN(f):
			if !m.o.AllowNaN {
				return nil, encFail
			}
			m.nonstd = true
			return &jt{kind: model.Number, s: "NaN"}, encOK
		case math.IsInf(f, 0):
			if !m.o.AllowInf {
				return nil, encFail
			}
			m.nonstd = true
			if f < 0 {
				return &jt{kind: model.Number, s: "-Inf"}, encOK
			}
			return &jt{kind: model.Number, s: "+Inf"}, encOK
		}
		return &jt{kind: model.Number, f: f, bits: t.Bits()}, encOK
	case reflect.String:
		if raw && !html {
			m.nonstd = true
			return &jt{kind: model.String, s: v.String(), raw: true}, encOK
		}
		return &jt{kind: model.String, s: model.ValidUTF8(v.String()), html: html}, encOK
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && (v.IsNil() || t.Elem().Kind() == reflect.Uint8) {
			m.nonstd = true
		}
		x := &jt{kind: model.Array}
		res := m.typeOK(t.Elem())
		for i := 0; i < v.Len(); i++ {
			y, e := m.enc(v.Index(i), html, raw)
			if e > res {
				res = e
			}
			if e == encFail {
				return nil, encFail
			}
			x.vals = append(x.vals, y)
		}
		return x, res
	case reflect.Map:
		if t.Key().Kind() != reflect.String && !t.Key().Implements(tText) {
			return nil, encSkip
		}
		if v.IsNil() {
			return &jt{kind: model.Null}, m.typeOK(t.Elem())
		}
		x := &jt{kind: model.Object}
		res := m.typeOK(t.Elem())
		for _, k := range v.MapKeys() {
			var key string
			if t.Key().Kind() == reflect.String {
				key = model.ValidUTF8(k.String())
			} else if k.Kind() == reflect.Ptr && k.IsNil() {
				key = ""
			} else {
				b, err := k.Interface().(encoding.TextMarshaler).MarshalText()
				if err != nil {
					return nil, encFail
				}
				key = string(b)
			}
			y, e := m.enc(v.MapIndex(k), false, false)
			if e > res {
				res = e
			}
			if e == encFail {
				return nil, encFail
			}
			x.keys = append(x.keys, key)
			x.vals = append(x.vals, y)
		}
		return x, res
	case reflect.Struct:
		x := &jt{kind: model.Object}
		res := m.typeOK(t)
		for _, f := range m.members(t) {
			fv, ok := f.at(v)
			if !ok || f.omit && m.empty(fv) {
				continue
			}
			y, e := m.enc(fv, f.html, f.raw)
			if e > res {
				res = e
			}
			if e == encFail {
				return nil, encFail
			}
			x.keys = append(x.keys, f.name)
			x.vals = append(x.vals, y)
		}
		return x, res
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer:
		return nil, encFail
	}
	return nil, encSkip
}

// typeOK: values that do not contain anything of an unsupported type may be refused all the same.
func (m *encModel) typeOK(t reflect.Type) encErr {
	seen := map[reflect.Type]bool{}
	var f func(t reflect.Type) encErr
	inStruct := false
	f = func(t reflect.Type) encErr {
		if t.Kind() == reflect.Interface && t.NumMethod() != 0 && inStruct {
			return encSkip // the members of a struct have to be decodable too
		}
		if seen[t] || selfMarshals(t) || selfMarshals(reflect.PtrTo(t)) {
			return encOK
		}
		seen[t] = true
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array:
			return f(t.Elem())
		case reflect.Map:
			if t.Key().Kind() != reflect.String && !t.Key().Implements(tText) {
				return encSkip
			}
			if k := t.Key().Kind(); (k == reflect.Ptr || k == reflect.Interface) && inStruct {
				return encSkip // the members of a struct have to be decodable too
			}
			return f(t.Elem())
		case reflect.Struct:
			old := inStruct
			inStruct = true
			defer func() { inStruct = old }()
			for _, x := range m.members(t) {
				if e := f(x.typ); e != encOK {
					return e
				}
			}
			return encOK
		case reflect.Interface:
			if t.NumMethod() != 0 {
				return encSkip
			}
			return encOK
		case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer, reflect.Uintptr:
			return encSkip
		}
		return encOK
	}
	return f(t)
}

func hasMethod(t reflect.Type, name string) bool {
	mt, ok := t.MethodByName(name)
	return ok && mt.Type.NumIn() == 1 && mt.Type.NumOut() == 1 && mt.Type.Out(0).Kind() == reflect.Bool
}

// empty decides if a field marked omitempty is left out.
func (m *encModel) empty(v reflect.Value) bool {
	t := v.Type()
	call := func(v reflect.Value) bool {
		m.nonstd = true
		return v.MethodByName(m.method()).Call(nil)[0].Bool()
	}
	switch t.Kind() {
	case reflect.Interface:
		return v.IsNil()
	case reflect.Ptr:
		if hasMethod(t, m.method()) { // by value or by pointer
			return v.IsNil() || call(v)
		}
		if t.Elem().Kind() == reflect.Ptr && hasMethod(t.Elem(), m.method()) {
			m.unspec = true
		}
		return v.IsNil()
	}
	if hasMethod(t, m.method()) {
		return call(v)
	}
	if hasMethod(reflect.PtrTo(t), m.method()) {
		return call(cloneVal(v).Addr())
	}
	switch t.Kind() {
	case reflect.Bool:
		return !v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return v.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.String, reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Array:
		if t.Len() > 0 {
			m.nonstd = true
		}
		if t.Elem().Kind() == reflect.Struct && !hasMethod(t.Elem(), m.method()) && !hasMethod(reflect.PtrTo(t.Elem()), m.method()) {
			return t.Len() == 0
		}
		for i := 0; i < v.Len(); i++ {
			if !m.empty(v.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if selfMarshals(t) || selfMarshals(reflect.PtrTo(t)) {
			return false
		}
		m.nonstd = true
		for _, f := range m.members(t) {
			if fv, ok := f.at(v); ok && (!f.omit || !m.empty(fv)) {
				return false
			}
		}
		return true
	}
	return false
}

// match compares parsed output with what it should denote.
func (x *jt) match(v *model.Val, path string) string {
	if x.kind != v.Kind {
		return fmt.Sprintf("%s is %s", path, v.Compact())
	}
	switch x.kind {
	case model.Bool:
		if x.s != v.Raw {
			return fmt.Sprintf("%s is %s, want %s", path, v.Raw, x.s)
		}
	case model.String:
		if x.raw {
			if v.Raw != x.s {
				return fmt.Sprintf("%s is written %q, want it verbatim %q", path, v.Raw, x.s)
			}
			return ""
		}
		if !x.any && !model.ValidBody(v.Raw) {
			return fmt.Sprintf("%s is not a valid JSON string: %q", path, v.Raw)
		}
		if s := model.Unescape(v.Raw); s != x.s {
			return fmt.Sprintf("%s denotes %q, want %q", path, s, x.s)
		}
		if x.html && strings.ContainsAny(v.Raw, "<>&") {
			return fmt.Sprintf("%s is not HTML escaped: %q", path, v.Raw)
		}
		if !x.html && !x.any && strings.ContainsAny(x.s, "<>&") && !strings.ContainsAny(v.Raw, "<>&") {
			return fmt.Sprintf("%s is HTML escaped: %q", path, v.Raw)
		}
	case model.Number:
		if x.i != nil {
			if i := intWant(v.Raw); i == nil || i.Cmp(x.i) != 0 {
				return fmt.Sprintf("%s is %s, want %s", path, v.Raw, x.i)
			}
			return ""
		}
		if x.s != "" {
			if v.Raw != x.s {
				return fmt.Sprintf("%s is %s, want %s", path, v.Raw, x.s)
			}
			return ""
		}
		if !model.IsNumber(v.Raw, false) {
			return fmt.Sprintf("%s is not a JSON number: %q", path, v.Raw)
		}
		f, _ := strconv.ParseFloat(v.Raw, x.bits)
		if !sameFloat(f, x.f) {
			return fmt.Sprintf("%s is %s, want %v", path, v.Raw, x.f)
		}
	case model.Array:
		if len(v.Vals) != len(x.vals) {
			return fmt.Sprintf("%s has %d elements, want %d", path, len(v.Vals), len(x.vals))
		}
		for i := range x.vals {
			if s := x.vals[i].match(v.Vals[i], fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
	case model.Object:
		if len(v.Vals) != len(x.vals) {
			return fmt.Sprintf("%s is %s, want members %q", path, clip(v.Compact()), x.keys)
		}
		used := make([]bool, len(x.keys))
	next:
		for i, k := range v.Keys {
			k = model.Unescape(k)
			msg := fmt.Sprintf("%s has a member %q, want members %q", path, k, x.keys)
			for j := range x.keys {
				if !used[j] && x.keys[j] == k {
					s := x.vals[j].match(v.Vals[i], path+"."+k)
					if s == "" {
						used[j] = true
						continue next
					}
					msg = s
				}
			}
			return msg
		}
	}
	return ""
}
