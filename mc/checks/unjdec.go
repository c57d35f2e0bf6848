package checks

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C17", Level: "model_checking", Families: c17, Quick: 200, Thorough: 800,
		Assumptions: []string{"Custom unmarshalers take what they are given and follow their interface's contract. Interfaces with methods as targets, json.Number, uintptr, maps with keys that are neither strings nor text, and the ',string' option are outside the supported set: they may be refused but must not panic. What is left in the target after an error is not judged."}})
}

var anyTexts = []string{`null`, `true`, `1`, `"s"`, `[]`, `{}`, `[1]`, `{"A":1}`}

var intTexts = map[int][]string{
	8:  {`127`, `128`, `-128`, `-129`, `255`, `256`},
	16: {`32767`, `32768`, `-32768`, `-32769`, `65535`, `65536`},
	32: {`2147483647`, `2147483648`, `-2147483648`, `-2147483649`, `4294967295`, `4294967296`},
	64: {`9223372036854775807`, `9223372036854775808`, `-9223372036854775808`, `-9223372036854775809`, `18446744073709551615`, `18446744073709551616`, `9007199254740993`, `100000000000000000000`},
}

// texts lists JSON texts aimed at a type; the first is always one that fits.
func texts(t reflect.Type, full bool, depth int) (out []string) {
	few := func(xs ...string) []string {
		if full || len(xs) <= 3 {
			return xs
		}
		return []string{xs[0], xs[1], xs[len(xs)-1]}
	}
	if depth > 6 {
		return []string{`null`}
	}
	if i, ok := zooIndex[t]; ok && len(zooTypes[i].texts) > 0 {
		return append(append([]string{}, zooTypes[i].texts...), few(anyTexts...)...)
	}
	wrong := few(anyTexts...)
	switch t.Kind() {
	case reflect.Bool:
		return append([]string{`true`, `false`, `null`}, wrong[len(wrong)-1], `"true"`, `0`)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		xs := append([]string{`1`, `-1`, `0`}, intTexts[t.Bits()]...)
		xs = append(xs, `-0`, `42.0`, `1.5`, `1e2`, `1e400`, `1e-400`, `-1.0000000000000000001`, `0.0`, `10e-1`)
		if !full {
			xs = []string{`1`, xs[4], `1.5`}
		}
		return append(xs, few(`null`, `"1"`, `true`, `""`, `[1]`, `{}`)...)
	case reflect.Float32, reflect.Float64:
		return few(append([]string{`1`, `0.1`, `-0`, `1e10`, `-1.5E-3`, `16777217`, `9007199254740993`, `3.4028235e38`, `3.5e38`, `1.7976931348623157e308`, `1.8e308`, `1e400`, `1e-400`, `5e-324`, `1.17549435e-38`, `7.0064923216240853546186479164495e-46`, `0.000000000000000000000000000000000000000000001`, `null`, `"1"`}, wrong...)...)
	case reflect.String:
		return few(append([]string{`"a"`, `""`, `"\"\\\/\b\f\n\r\t"`, `"\u00e9\ud83d\ude00\ud800x"`, `"é世😀"`, `"<\u003c>"`, `"\ud83d"`, `"\u0000"`, `null`, `1`}, wrong...)...)
	case reflect.Interface:
		return few(`"s"`, `{"a":[1,{"b":null}],"c":"\n","d":false}`, `null`, `true`, `1`, `0.1`, `[]`, `{}`, `[[],{}]`, `{"":{"":[]}}`, `123456789012345678901234567890`, `[1,"x",null,true,{"k":[2]}]`)
	case reflect.Ptr:
		return append(append([]string{}, texts(t.Elem(), full, depth+1)...), `null`)
	case reflect.Slice, reflect.Array:
		es := texts(t.Elem(), full, depth+1)
		out = append(out, `[]`)
		for _, e := range es {
			out = append(out, `[`+e+`]`, `[`+es[0]+`,`+e+`,`+es[0]+`]`)
			if full {
				out = append(out, `[`+es[0]+`,`+es[0]+`,`+es[0]+`,`+e+`]`)
			}
		}
		return append(out, few(`null`, `"s"`, `{}`, `""`, `1`, `"MTIz"`, `{"0":1}`)...)
	case reflect.Map:
		es := texts(t.Elem(), full, depth+1)
		out = append(out, `{}`)
		for _, e := range es {
			out = append(out, `{"k":`+e+`}`, `{"":`+es[0]+`,"b\"<\n":`+e+`,"\u007az":`+es[0]+`}`)
			if full {
				out = append(out, `{"k":`+e+`,"x":`+es[0]+`,"k":`+es[0]+`}`)
			}
		}
		return append(out, few(`null`, `"s"`, `[]`, `1`, `[["a",1]]`)...)
	case reflect.Struct:
		em := encModel{}
		out = append(out, `{}`)
		all := ""
		for i := 0; i < t.NumField(); i++ {
			f := em.field(t.Field(i))
			es := texts(t.Field(i).Type, full, depth+1)
			k := `"` + f.name + `"`
			if f.skip {
				out = append(out, `{"`+t.Field(i).Name+`":`+es[0]+`}`)
				continue
			}
			for _, e := range es {
				out = append(out, `{`+k+`:`+e+`}`)
			}
			all += k + `:` + es[0] + `,`
			if full {
				esc := fmt.Sprintf(`"\u%04x%s"`, f.name[0], f.name[1:])
				out = append(out, `{`+esc+`:`+es[0]+`}`, `{`+k+`:`+es[len(es)-1]+`,`+k+`:`+es[0]+`}`, `{`+strings.ToUpper(k)+`:`+es[0]+`}`, `{`+strings.ToLower(k)+`:`+es[0]+`}`)
			}
		}
		out = append(out, `{`+all+`"unknown":[{"A":1}]}`, `{"unknown":"x",`+all+`"":null}`)
		return append(out, few(`null`, `"s"`, `[]`, `1`, `[1]`, `true`)...)
	}
	return anyTexts
}

// nullTexts lists texts of a type with one part null.
func nullTexts(t reflect.Type, depth int) (out []string) {
	out = []string{`null`}
	if _, ok := zooIndex[t]; ok || depth > 8 {
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		return nullTexts(t.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		fit := texts(t.Elem(), false, depth+1)[0]
		for _, e := range nullTexts(t.Elem(), depth+1) {
			out = append(out, `[`+e+`]`, `[`+fit+`,`+e+`]`)
		}
	case reflect.Map:
		for _, e := range nullTexts(t.Elem(), depth+1) {
			out = append(out, `{"k":`+e+`}`)
		}
	case reflect.Struct:
		em := encModel{}
		for i := 0; i < t.NumField(); i++ {
			if f := em.field(t.Field(i)); !f.skip {
				for _, e := range nullTexts(t.Field(i).Type, depth+1) {
					out = append(out, `{"`+f.name+`":`+e+`}`)
				}
			}
		}
	}
	return
}

type decWay struct {
	name string
	run  func(s string, x interface{}) error
}

var freshCache = func() *unjson.Cache { return new(unjson.Cache) }

var decWays = []decWay{
	{"Unmarshal", func(s string, x interface{}) error { return unjson.Unmarshal([]byte(s), x) }},
	{"UnmarshalFromString", func(s string, x interface{}) error { return unjson.UnmarshalFromString(s, x) }},
	{"UnmarshalFromNode", func(s string, x interface{}) error {
		d := new(njson.Document)
		n, tail, err := d.Parse(s)
		if err != nil || strings.Trim(tail, " \t\r\n") != "" {
			return fmt.Errorf("parse: %v %q", err, tail)
		}
		return unjson.UnmarshalFromNode(n, x)
	}},
	{"NewTypeDecoder", func(s string, x interface{}) error {
		dec, err := unjson.NewTypeDecoder(reflect.TypeOf(x), "")
		if err != nil {
			return err
		}
		// not the first value of its document
		d := new(njson.Document)
		_, _, _ = d.Parse(`[{"a":"other"}]`)
		n, tail, err := d.Parse(s)
		if err != nil || strings.Trim(tail, " \t\r\n") != "" {
			return fmt.Errorf("parse: %v %q", err, tail)
		}
		return dec.Decode(x, n)
	}},
}

// noDecode: the promoted method of a nil embedded pointer is called.
var noDecode = map[reflect.Type]bool{reflect.TypeOf(ZEmbP{}): true}

func hasNoDecode(t reflect.Type) bool {
	seen := map[reflect.Type]bool{}
	var f func(t reflect.Type) bool
	f = func(t reflect.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if noDecode[t] {
			return true
		}
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
			return f(t.Elem())
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				if f(t.Field(i).Type) {
					return true
				}
			}
		}
		return false
	}
	return f(t)
}

// decodeOne decodes s into a copy of start every way.
func decodeOne(t *core.T, start reflect.Value, s string, ways []decWay, cross bool) {
	m := decModel{onto: start.CanAddr()}
	v, tail, perr := model.Parse(s)
	want := deepClone(start)
	res := encFail
	if perr == nil && strings.Trim(tail, " \t\r\n") == "" {
		res = m.dec(want, v)
	}
	t.Steps(1)
	onto := ""
	if m.onto {
		onto = " onto " + showVal(start)
	}
	typ := clipN(start.Type().String(), 120)
	for _, w := range ways {
		t.Runs(1)
		got := deepClone(start)
		err := w.run(s, got.Addr().Interface())
		if err != nil {
			if res == encOK {
				t.Failf("%s of %s into %s%s fails: %v, want %s", w.name, s, typ, onto, err, showVal(want))
			}
			continue
		}
		switch res {
		case encFail:
			t.Failf("%s of %s into %s%s gives %s, want an error", w.name, s, typ, onto, showVal(got))
		case encOK, encMay:
			if !sameVal(got, want) {
				t.Failf("%s of %s into %s%s gives %s, want %s", w.name, s, typ, onto, showVal(got), showVal(want))
			}
		}
	}
	if cross && !m.nonstd && perr == nil && (res == encOK || res == encFail) && model.ValidUTF8(s) == s {
		got := deepClone(start)
		src := s
		if strings.Trim(tail, " \t\r\n") == "" {
			src = v.Compact()
		}
		err := json.Unmarshal([]byte(src), got.Addr().Interface())
		if (err != nil) != (res == encFail) {
			t.Failf("model of %s into %s%s: fails %v, encoding/json: %v", s, typ, onto, res == encFail, err)
		} else if err == nil && !sameVal(got, want) {
			t.Failf("model of %s into %s%s gives %s, encoding/json %s", s, typ, onto, showVal(want), showVal(got))
		}
	}
}

// deepClone copies what decoding may write to.
func deepClone(v reflect.Value) reflect.Value {
	out := cloneVal(v)
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			out.Set(deepClone(v.Elem()).Addr().Convert(v.Type()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Cap(), v.Cap())
			full := v.Slice(0, v.Cap())
			for i := 0; i < v.Cap(); i++ {
				s.Index(i).Set(deepClone(full.Index(i)))
			}
			out.Set(s.Slice(0, v.Len()))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepClone(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMap(v.Type())
			for _, k := range v.MapKeys() {
				m.SetMapIndex(k, deepClone(v.MapIndex(k)))
			}
			out.Set(m)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				out.Field(i).Set(deepClone(v.Field(i)))
			}
		}
	}
	return out
}

func decodeTypes(ts typeSet, full bool) func(t *core.T, c []byte) {
	return func(t *core.T, c []byte) {
		typ := ts.at(c)
		if hasNoDecode(typ) {
			return
		}
		t.State(typ.String())
		for _, s := range texts(typ, full, 0) {
			decodeOne(t, reflect.Zero(typ), s, decWays, true)
		}
	}
}

// decodeMalformed cuts and extends the texts of a type everywhere.
func decodeMalformed(ts typeSet) func(t *core.T, c []byte) {
	tails := []string{" ", "\n\t\r ", " x", ",", "]", "}", "1", "null", "\x00", "\"", "\v"}
	return func(t *core.T, c []byte) {
		typ := ts.at(c)
		if hasNoDecode(typ) {
			return
		}
		t.State(typ.String())
		for _, s := range texts(typ, false, 0) {
			for i := 0; i < len(s); i++ {
				decodeOne(t, reflect.Zero(typ), s[:i], decWays[:2], false)
				for _, x := range []string{" ", "]", "}", ",", "\"", "x", ":"} {
					decodeOne(t, reflect.Zero(typ), s[:i]+x+s[i:], decWays[1:2], false)
				}
			}
			for _, x := range tails {
				decodeOne(t, reflect.Zero(typ), s+x, decWays[:3], false)
				decodeOne(t, reflect.Zero(typ), x+s, decWays[:3], false)
			}
		}
	}
}

func decodeOnto(ts typeSet, full bool) func(t *core.T, c []byte) {
	return func(t *core.T, c []byte) {
		typ := ts.at(c)
		if hasNoDecode(typ) {
			return
		}
		t.State(typ.String())
		for _, v := range goVals(typ, full, 0) {
			for _, s := range texts(typ, false, 0) {
				decodeOne(t, cloneVal(v), s, decWays[1:], true)
			}
			for _, s := range nullTexts(typ, 0) {
				decodeOne(t, cloneVal(v), s, decWays[1:], true)
			}
		}
	}
}

type unusable struct {
	name string
	mk   func() interface{}
}

var unusables = []unusable{
	{"nil", func() interface{} { return nil }},
	{"int", func() interface{} { return 1 }},
	{"struct", func() interface{} { return ZPoint{} }},
	{"map", func() interface{} { return map[string]int{} }},
	{"slice", func() interface{} { return []int{1} }},
	{"string", func() interface{} { return "" }},
	{"nil *int", func() interface{} { return (*int)(nil) }},
	{"nil **int", func() interface{} { return (**int)(nil) }},
	{"nil *interface{}", func() interface{} { return (*interface{})(nil) }},
	{"nil *struct", func() interface{} { return (*ZPoint)(nil) }},
	{"nil *map", func() interface{} { return (*map[string]int)(nil) }},
	{"nil *[]int", func() interface{} { return (*[]int)(nil) }},
	{"nil json unmarshaler", func() interface{} { return (*ZJV)(nil) }},
	{"nil json unmarshaler (pointer)", func() interface{} { return (*ZJP)(nil) }},
	{"nil text unmarshaler", func() interface{} { return (*ZTV)(nil) }},
	{"nil text unmarshaler (pointer)", func() interface{} { return (*ZTP)(nil) }},
	{"nil node unmarshaler", func() interface{} { return (*ZAV)(nil) }},
	{"json unmarshaler by value", func() interface{} { return ZJV{} }},
	{"text unmarshaler by value", func() interface{} { return ZTV(1) }},
	{"node unmarshaler by value", func() interface{} { return ZAV(1) }},
	{"chan", func() interface{} { return make(chan int) }},
	{"*chan", func() interface{} { return new(chan int) }},
	{"*func", func() interface{} { return new(func()) }},
	{"*complex", func() interface{} { return new(complex128) }},
	{"*map[int]", func() interface{} { return new(map[int]string) }},
	{"*map[struct]", func() interface{} { return new(map[ZPoint]string) }},
	{"*[]chan", func() interface{} { return new([]chan int) }},
	{"*[2]chan", func() interface{} { return new([2]chan int) }},
	{"*[0]chan", func() interface{} { return new([0]chan int) }},
	{"*map[string]chan", func() interface{} { return new(map[string]chan int) }},
	{"*struct{chan}", func() interface{} { return new(struct{ A chan int }) }},
	{"*struct{map[int]}", func() interface{} { return new(struct{ A map[int]int }) }},
	{"**chan", func() interface{} { return new(*chan int) }},
	{"*error", func() interface{} { return new(error) }},
	{"*json.Unmarshaler", func() interface{} { return new(json.Unmarshaler) }},
	{"*struct{json.Unmarshaler}", func() interface{} { return new(struct{ A json.Unmarshaler }) }},
	{"*[]json.Unmarshaler", func() interface{} { return new([]json.Unmarshaler) }},
	{"*struct{error}", func() interface{} { return new(struct{ A error }) }},
}

// decodeUnusable: x cannot hold any of the texts, which must be reported.
func decodeUnusable(t *core.T, c []byte) {
	u := unusables[c[0]]
	for _, s := range []string{`1`, `"s"`, `[1]`, `{"A":1}`, `{"A":[1]}`, `{"A":{"1":1}}`, `[{}]`, `true`, `{"1":{}}`, `[4]`, `"zjp4"`, `"t<4>\""`, `{"zav":3}`} {
		for _, w := range decWays {
			t.Runs(1)
			x := u.mk()
			err := w.run(s, x)
			if err == nil && reflect.DeepEqual(x, u.mk()) && !(s[0] == '[' && strings.HasPrefix(u.name, "*[0]")) {
				t.Failf("%s of %s into %s reports nothing", w.name, s, u.name)
			}
		}
		for _, w := range decWays {
			t.Runs(1)
			_ = w.run(`null`, u.mk())
			_ = w.run(`[]`, u.mk())
			_ = w.run(`{}`, u.mk())
		}
	}
	// a decoder of one type given a value of another
	for _, typ := range append(append([]reflect.Type{}, baseTypes...), zooList()...) {
		for _, p := range []reflect.Type{reflect.PtrTo(typ), reflect.PtrTo(reflect.SliceOf(typ))} {
			dec, err := unjson.NewTypeDecoder(p, "")
			if err != nil {
				t.Failf("no decoder for %s: %v", p, err)
				continue
			}
			d := new(njson.Document)
			for _, s := range []string{`1`, `{"A":1}`, `[4]`} {
				n, _, _ := d.Parse(s)
				x := u.mk()
				t.Runs(1)
				if err := dec.Decode(x, n); err == nil && reflect.TypeOf(x) != p && reflect.DeepEqual(x, u.mk()) {
					t.Failf("the decoder of %s reports nothing for %s into %s", p, s, u.name)
				}
			}
		}
	}
	// no node at all
	var zero njson.Node
	if err := unjson.UnmarshalFromNode(zero, u.mk()); err == nil {
		t.Failf("decoding no node into %s reports nothing", u.name)
	}
}

// decodeNothing: a node that does not exist cannot be decoded.
func decodeNothing(ts typeSet) func(t *core.T, c []byte) {
	return func(t *core.T, c []byte) {
		typ := ts.at(c)
		if hasNoDecode(typ) || !plainType(typ) {
			return
		}
		d := new(njson.Document)
		n, _, _ := d.Parse(`{"a":[]}`)
		m := n.Get("nope")
		old := n.Get("a")
		d.Reset()
		for i, n := range []njson.Node{{}, m, old} {
			x := reflect.New(typ)
			t.Runs(1)
			if err := unjson.UnmarshalFromNode(n, x.Interface()); err == nil {
				t.Failf("decoding a node that does not exist (%d) into %s gives %s, want an error", i, typ, showVal(x.Elem()))
			}
		}
	}
}

// plainType: not unmarshaled by methods anywhere.
func plainType(t reflect.Type) bool {
	_, zoo := zooIndex[t]
	return !zoo
}

func c17(tr string) []core.Family {
	l0, l1, l2, l3 := typeLevels(tr)
	r0 := typeSet(refuseTypes)
	r1 := typeSet(append(append(typeSet{}, r0...), wrapAll(append(wrapAll(r0, wrap), r0...), wrap)...))
	l01 := append(append(typeSet{}, l0...), l1...)
	mal := l01
	onto := l01
	mm := append(typeSet{reflect.TypeOf(ZSU{}), reflect.TypeOf(ZMU{})}, l0...)
	for _, t := range l0 {
		mm = append(mm, reflect.PtrTo(t), reflect.SliceOf(t))
	}
	if tr == "thorough" {
		mal = append(append(typeSet{}, l01...), l2...)
		onto = mal
	}
	return []core.Family{
		{Name: "base", Rule: "every basic type and every type of the zoo, every boundary token, shaped text and token of another kind", Enum: l0.enum, Check: decodeTypes(l0, true), Show: l0.show},
		{Name: "one", Rule: "every container (pointer, slice, arrays, map, structs with tags) of those, every such text at every place, unknown, repeated and escaped members", Enum: l1.enum, Check: decodeTypes(l1, true), Show: l1.show},
		{Name: "two", Rule: "every container of those containers, representative texts at every place", Enum: l2.enum, Check: decodeTypes(l2, false), Show: l2.show},
		{Name: "refused", Rule: "types that cannot be decoded in up to 2 containers", Enum: r1.enum, Check: decodeTypes(r1, false), Show: r1.show},
		{Name: "malformed", Rule: "texts of every type cut at every byte, with a byte inserted at every place, and with text before and after", Enum: mal.enum, Check: decodeMalformed(mal), Show: mal.show},
		{Name: "onto", Rule: "targets that hold any of the values of the type", Enum: onto.enum, Check: decodeOnto(onto, tr == "thorough"), Show: onto.show},
		{Name: "nothing", Rule: "nodes that do not exist", Enum: l01.enum, Check: decodeNothing(l01), Show: l01.show},
		{Name: "failing", Rule: "one part of a wrong kind or range at every place of arrays, objects and nestings of every size up to the bound, into every kind of container", Enum: func(emit func([]byte) bool) {
			for n := 1; n <= tier(tr, 40, 140); n++ {
				for i := 0; i <= n; i++ {
					if !emit([]byte{byte(n), byte(i)}) {
						return
					}
				}
			}
		}, Check: decodeFailing, Show: func(c []byte) string { return fmt.Sprintf("size %d failing at %d", c[0], c[1]) }},
		{Name: "unusable", Rule: "every kind of target that cannot be decoded to", Enum: func(emit func([]byte) bool) {
			for i := range unusables {
				if !emit([]byte{byte(i)}) {
					return
				}
			}
		}, Check: decodeUnusable, Show: func(c []byte) string { return unusables[c[0]].name }},
		{Name: "mismatch", Rule: "decoders of every basic and zoo type and of pointers and slices of them, given values of, pointers to and nil pointers to each other type, nothing, nil and doubly pointed targets", Enum: mm.enum, Check: decodeMismatch(mm), Show: mm.show},
		{Name: "any", Rule: "decoders of the empty interface and of no type: every document with up to N nodes into filled and unusable targets", Enum: func(emit func([]byte) bool) {
			for _, l := range []string{"null", "true", "1.5", `"s\n"`, "[]", "{}", "1e999", "-1e400", "1e-999", "[0,1e999]", `{"a":1e999}`, `{"a":[{"b":1e400}]}`, "12345678901234567890", "-0", "1E2"} {
				if !emit([]byte(l)) {
					return
				}
			}
			treeDocs(tier(tr, 4, 5), []string{"null", "1", `"x"`, "false"}, []string{"a", "b"}, func(s string) bool { return emit([]byte(s)) })
		}, Check: decodeAny, Show: func(c []byte) string { return string(c) }},
		{Name: "ifaces", Rule: "interfaces with unmarshal methods that hold nothing, nil, pointers and values, in 6 places, 8 texts", Enum: func(emit func([]byte) bool) {
			for h := range ifaceHolders {
				for i := range ifaceTypes {
					for f := range ifaceFills {
						for s := range ifaceTexts {
							if !emit([]byte{byte(h), byte(i), byte(f), byte(s)}) {
								return
							}
						}
					}
				}
			}
		}, Check: decodeIfaces, Show: func(c []byte) string {
			return fmt.Sprintf("%s in %s with %s, %s", ifaceTypes[c[1]], ifaceHolders[c[0]].name, ifaceFills[c[2]].name, ifaceTexts[c[3]])
		}},
		{Name: "three", Rule: "types nested 3 deep, representative texts at every place", Enum: l3.enum, Check: decodeTypes(l3, false), Show: l3.show},
	}
}

// decodeFailing: n elements, the one at position at (if any) does not fit.
func decodeFailing(t *core.T, c []byte) {
	n, at := int(c[0]), int(c[1])
	for _, bad := range []string{`"s"`, `300`, `1.5`, `[]`, `{}`, `null`} {
		var arr, obj, deep strings.Builder
		arr.WriteString("[")
		obj.WriteString("{")
		for i := 0; i < n; i++ {
			x := fmt.Sprint(i)
			if i == at {
				x = bad
			}
			if i > 0 {
				arr.WriteString(",")
				obj.WriteString(",")
			}
			arr.WriteString(x)
			fmt.Fprintf(&obj, `"F%d":%s`, i, x)
			deep.WriteString("[")
		}
		arr.WriteString("]")
		obj.WriteString("}")
		if at < n {
			deep.WriteString(bad)
		}
		deep.WriteString(strings.Repeat("]", n))
		tU8 := reflect.TypeOf(uint8(0))
		decodeOne(t, reflect.Zero(reflect.SliceOf(tU8)), arr.String(), decWays, true)
		decodeOne(t, reflect.Zero(reflect.ArrayOf(n, tU8)), arr.String(), decWays[3:], true)
		decodeOne(t, reflect.Zero(reflect.ArrayOf(n+2, tU8)), arr.String(), decWays[3:], true)
		decodeOne(t, reflect.Zero(reflect.ArrayOf(n/2, tU8)), arr.String(), decWays[3:], true)
		decodeOne(t, reflect.Zero(reflect.MapOf(tString, tU8)), obj.String(), decWays, true)
		decodeOne(t, reflect.Zero(tIface), arr.String(), decWays, true)
		decodeOne(t, reflect.Zero(tIface), obj.String(), decWays, true)
		if n <= 40 {
			var f []reflect.StructField
			for i := 0; i < n; i++ {
				f = append(f, fld(fmt.Sprint("F", i), reflect.PtrTo(tU8), ""))
			}
			decodeOne(t, reflect.Zero(structOf(f...)), obj.String(), decWays, true)
		}
		if at == 0 || at == n {
			decodeOne(t, reflect.Zero(tIface), deep.String(), decWays, true)
			decodeOne(t, reflect.Zero(reflect.TypeOf(ZSlice{})), deep.String(), decWays, true)
		}
	}
}
