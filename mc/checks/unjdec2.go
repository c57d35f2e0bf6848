package checks

import (
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"

	"verif/mc/core"
)

// ZMU and ZSU are unmarshalers by value.
type ZMU map[string]string
type ZSU struct{ p *string }

func (z ZMU) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '1' {
		return errors.New("no ones")
	}
	if z != nil {
		z["got"] = string(b)
	}
	return nil
}
func (z ZSU) UnmarshalJSON(b []byte) error {
	if z.p != nil {
		*z.p = string(b)
	}
	return nil
}
func (z ZMU) UnmarshalText(b []byte) error { return z.UnmarshalJSON(b) }
func (z ZMU) UnmarshalNodeJSON(n njson.Node) error {
	return z.UnmarshalJSON([]byte(n.Raw()))
}

// ZAll counts the ways it is unmarshaled.
type ZAll struct{ J, T, N string }

func (z *ZAll) UnmarshalJSON(b []byte) error {
	if string(b) == "2" {
		return errors.New("no twos")
	}
	z.J += string(b)
	return nil
}
func (z *ZAll) UnmarshalText(b []byte) error {
	if string(b) == "2" {
		return errors.New("no twos")
	}
	z.T += string(b)
	return nil
}

type ZNode struct{ N string }

func (z *ZNode) UnmarshalNodeJSON(n njson.Node) error {
	b, err := n.AppendJSON(nil)
	if string(b) == "2" {
		return errors.New("no twos")
	}
	z.N += string(b)
	return err
}

var tUnmarshalers = []reflect.Type{reflect.TypeOf((*njson.Unmarshaler)(nil)).Elem(), reflect.TypeOf((*json.Unmarshaler)(nil)).Elem(), reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()}

type zBothN interface {
	njson.Appender
	njson.Unmarshaler
}
type zBothJ interface {
	json.Marshaler
	json.Unmarshaler
}
type zBothT interface {
	encoding.TextMarshaler
	encoding.TextUnmarshaler
}

// The same followed by interfaces that marshal too, which struct members have to.
var ifaceTypes = append(append([]reflect.Type{}, tUnmarshalers...), reflect.TypeOf((*zBothN)(nil)).Elem(), reflect.TypeOf((*zBothJ)(nil)).Elem(), reflect.TypeOf((*zBothT)(nil)).Elem())

func (z ZMU) MarshalJSON() ([]byte, error)           { return []byte("1"), nil }
func (z ZMU) MarshalText() ([]byte, error)           { return []byte("1"), nil }
func (z ZMU) AppendJSON(b []byte) ([]byte, error)    { return append(b, '1'), nil }
func (z ZSU) MarshalJSON() ([]byte, error)           { return []byte("1"), nil }
func (z *ZAll) MarshalJSON() ([]byte, error)         { return []byte("1"), nil }
func (z *ZAll) MarshalText() ([]byte, error)         { return []byte("1"), nil }
func (z *ZNode) AppendJSON(b []byte) ([]byte, error) { return append(b, '1'), nil }

func selfUnmarshals(t reflect.Type) bool {
	for _, u := range tUnmarshalers {
		if t.Implements(u) {
			return true
		}
	}
	return false
}

// decodeMismatch: the decoder of a type given anything else.
func decodeMismatch(all typeSet) func(t *core.T, c []byte) {
	return func(t *core.T, c []byte) {
		typ := all.at(c)
		ptr := reflect.PtrTo(typ)
		t.State(typ.String())
		var cache unjson.Cache
		for k := 0; k < 2; k++ {
			var dec unjson.Decoder
			var err error
			if k == 0 {
				dec, err = unjson.NewTypeDecoder(ptr, "")
			} else {
				dec, err = cache.Decoder(ptr)
			}
			if err != nil {
				t.Failf("no decoder for %s: %v", ptr, err)
				return
			}
			d := new(njson.Document)
			for _, s := range []string{`1`, `"s"`, `[1]`, `{"a":1}`, `null`} {
				n, _, _ := d.Parse(s)
				try := func(x interface{}) {
					t.Runs(1)
					t.Steps(1)
					err := dec.Decode(x, n)
					if x != nil && selfUnmarshals(ptr) && selfUnmarshals(reflect.TypeOf(x)) && !isNilRef(x) {
						return // taken for what it is
					}
					if err == nil {
						t.Failf("decoder of %s given a %T for %s reports nothing", ptr, x, s)
					}
				}
				try(nil)
				try(reflect.Zero(ptr).Interface())
				try(reflect.New(ptr).Interface())
				for _, u := range all {
					if u == typ {
						continue
					}
					p := reflect.New(u)
					try(p.Elem().Interface())
					try(p.Interface())
					try(reflect.Zero(p.Type()).Interface())
					if !selfUnmarshals(p.Type()) && !reflect.DeepEqual(p.Interface(), reflect.New(u).Interface()) {
						t.Failf("decoder of %s given a %T for %s fails and leaves %s", ptr, p.Interface(), s, showVal(p.Elem()))
					}
				}
				if !selfUnmarshals(typ) {
					try(reflect.New(typ).Elem().Interface())
				}
			}
		}
	}
}

func isNilRef(x interface{}) bool {
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// decodeAny: decoders for no type and for the empty interface.
func decodeAny(t *core.T, c []byte) {
	s := string(c)
	var std interface{}
	stdErr := json.Unmarshal(c, &std)
	var cache unjson.Cache
	for _, typ := range []reflect.Type{nil, tIface, reflect.PtrTo(tIface)} {
		for k := 0; k < 3; k++ {
			var dec unjson.Decoder
			var err error
			if k == 0 {
				dec, err = unjson.NewTypeDecoder(typ, "")
			} else {
				dec, err = cache.Decoder(typ)
			}
			if err != nil {
				t.Failf("no decoder for %v: %v", typ, err)
				return
			}
			for _, x := range []interface{}{nil, 5, "old", map[string]interface{}{"old": 1}} {
				d := new(njson.Document)
				n, _, err := d.Parse(s)
				if err != nil {
					return
				}
				t.Runs(1)
				y := x
				err = dec.Decode(&y, n)
				if (err == nil) != (stdErr == nil) {
					t.Failf("decoder of %v into a *interface{} gives %v for %s, the standard decoder %v", typ, err, s, stdErr)
				} else if err == nil && !reflect.DeepEqual(y, std) {
					t.Failf("decoder of %v gives %#v for %s, want %#v", typ, y, s, std)
				}
				for _, z := range []interface{}{nil, (*interface{})(nil), 5, new(int), []interface{}{}, struct{}{}, new(njson.Unmarshaler), x} {
					if err := dec.Decode(z, n); err == nil {
						t.Failf("decoder of %v into a %T reports nothing", typ, z)
					}
				}
			}
		}
	}
}

var ifaceHolders = []struct {
	name  string
	typ   func(i reflect.Type) reflect.Type
	text  func(s string) string
	at    func(v reflect.Value) reflect.Value
	plain bool
}{
	{"the target", func(i reflect.Type) reflect.Type { return i }, func(s string) string { return s }, func(v reflect.Value) reflect.Value { return v }, true},
	{"field", func(i reflect.Type) reflect.Type { return structOf(fld("B", tInt, ""), fld("A", i, `json:"a"`)) }, func(s string) string { return `{"B":1,"a":` + s + `,"x":[]}` }, func(v reflect.Value) reflect.Value { return v.Field(1) }, false},
	{"field with options", func(i reflect.Type) reflect.Type { return structOf(fld("A", i, `json:",omitempty"`)) }, func(s string) string { return `{"A":` + s + `}` }, func(v reflect.Value) reflect.Value { return v.Field(0) }, false},
	{"pointed to", func(i reflect.Type) reflect.Type { return reflect.PtrTo(i) }, func(s string) string { return s }, func(v reflect.Value) reflect.Value {
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		return v.Elem()
	}, true},
	{"array", func(i reflect.Type) reflect.Type { return reflect.ArrayOf(2, i) }, func(s string) string { return `[null,` + s + `]` }, func(v reflect.Value) reflect.Value { return v.Index(1) }, true},
	{"nested", func(i reflect.Type) reflect.Type {
		return structOf(fld("P", reflect.PtrTo(reflect.ArrayOf(1, structOf(fld("A", i, "")))), `json:"p"`))
	}, func(s string) string { return `{"p":[{"A":` + s + `}]}` }, func(v reflect.Value) reflect.Value {
		if v.Field(0).IsNil() {
			v.Field(0).Set(reflect.New(v.Field(0).Type().Elem()))
		}
		return v.Field(0).Elem().Index(0).Field(0)
	}, false},
}

var ifaceFills = []struct {
	name string
	mk   func() interface{}
}{
	{"nothing", func() interface{} { return nil }},
	{"*ZAll", func() interface{} { return &ZAll{"o", "o", ""} }},
	{"nil *ZAll", func() interface{} { return (*ZAll)(nil) }},
	{"ZMU", func() interface{} { return ZMU{"old": "x"} }},
	{"nil ZMU", func() interface{} { return ZMU(nil) }},
	{"*ZMU", func() interface{} { return &ZMU{"old": "y"} }},
	{"*ZNode", func() interface{} { return &ZNode{"o"} }},
	{"nil *ZNode", func() interface{} { return (*ZNode)(nil) }},
	{"ZSU", func() interface{} { return ZSU{new(string)} }},
}

var ifaceTexts = []string{`null`, `1`, `2`, `"s"`, `"2"`, `[1,{"a":null}]`, `{"a":"\u00e9"}`, `true`}

// decodeIfaces: interfaces with methods hold a value that unmarshals itself.
func decodeIfaces(t *core.T, c []byte) {
	h, it, f, s := ifaceHolders[c[0]], ifaceTypes[c[1]], ifaceFills[c[2]], ifaceTexts[c[3]]
	mk := func() (target, slot reflect.Value, ok bool) {
		v := reflect.New(h.typ(it)).Elem()
		slot = h.at(v)
		if x := f.mk(); x != nil {
			if !reflect.TypeOf(x).Implements(it) {
				return v, slot, false
			}
			slot.Set(reflect.ValueOf(x))
		}
		return v, slot, true
	}
	text := h.text(s)
	if _, err := unjson.NewTypeDecoder(reflect.PtrTo(h.typ(it)), ""); err != nil {
		if h.plain || c[1] >= 3 {
			t.Failf("no decoder for %s: %v", h.typ(it), err)
		}
		return // the members of a struct have to be encodable too
	}
	for _, w := range decWays {
		v, slot, ok := mk()
		if !ok {
			return
		}
		t.Runs(1)
		t.Steps(1)
		err := w.run(text, v.Addr().Interface())
		// what the interface's own method does with the value
		_, want, _ := mk()
		what := fmt.Sprintf("%s of %s with %s in %s (%s)", w.name, text, f.name, it, h.name)
		if want.IsNil() || isNilRef(want.Interface()) {
			if err == nil && s != "null" {
				t.Failf("%s reports nothing", what)
			}
			if err != nil && s == "null" && want.IsNil() {
				t.Failf("%s fails: %v", what, err)
			}
			continue
		}
		if s == "null" {
			// nil, or what the method makes of it
			if err == nil && (slot.IsNil() || v.Kind() == reflect.Ptr && v.IsNil()) {
				continue
			}
		}
		var e error
		d := new(njson.Document)
		n, _, _ := d.Parse(s)
		switch x := want.Interface().(type) {
		case njson.Unmarshaler:
			if c[1]%3 == 0 {
				e = x.UnmarshalNodeJSON(n)
			} else {
				e = direct(x, int(c[1])%3, n, s)
			}
		default:
			e = direct(x, int(c[1])%3, n, s)
		}
		if e != nil {
			if err == nil && !(s == "null") {
				t.Failf("%s reports nothing, its method fails: %v", what, e)
			}
			continue
		}
		if err != nil {
			if !(s == "null") {
				t.Failf("%s fails: %v", what, err)
			}
			continue
		}
		if !reflect.DeepEqual(slot.Interface(), want.Interface()) {
			t.Failf("%s leaves %#v, want %#v", what, slot.Interface(), want.Interface())
		}
	}
}

func direct(x interface{}, k int, n njson.Node, s string) error {
	if k == 1 {
		return x.(json.Unmarshaler).UnmarshalJSON([]byte(s))
	}
	if n.Type() != njson.TypeString {
		return errors.New("not a text")
	}
	return x.(encoding.TextUnmarshaler).UnmarshalText([]byte(n.Unescaped()))
}
