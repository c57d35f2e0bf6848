package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/alxarch/njson/unjson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C16", Level: "model_checking", Families: c16, Quick: 200, Thorough: 800,
		Assumptions: []string{"Values are acyclic. Maps with keys that are neither strings nor text, uintptr, json.Number and the ',string' option are outside the supported set."}})
}

// typeSet gives the types of a family by index.
type typeSet []reflect.Type

func (ts typeSet) enum(emit func([]byte) bool) {
	for i := range ts {
		if !emit([]byte{byte(i >> 16), byte(i >> 8), byte(i)}) {
			return
		}
	}
}

func (ts typeSet) at(c []byte) reflect.Type { return ts[int(c[0])<<16|int(c[1])<<8|int(c[2])] }

func (ts typeSet) show(c []byte) string { return "type " + clipN(ts.at(c).String(), 200) }

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func typeLevels(tr string) (l0, l1, l2, l3 typeSet) {
	l0 = append(append(typeSet{}, baseTypes...), zooList()...)
	l1 = wrapAll(l0, wrap)
	l2 = wrapAll(l1, wrap)
	if tr == "thorough" {
		l3 = wrapAll(l2, wrap)
	} else {
		l3 = wrapAll(wrapAll(wrapAll(append(append([]reflect.Type{}, baseTypes[0], baseTypes[2], baseTypes[7], baseTypes[12], baseTypes[13], baseTypes[14]), zooList()[:6]...), wrapShort), wrapShort), wrapShort)
	}
	return
}

// eachEncoding runs every way of encoding x.
func eachEncoding(x interface{}, f func(how string, b []byte, err error)) {
	b, err := unjson.Marshal(x)
	f("Marshal", b, err)
	typ := reflect.TypeOf(x)
	if typ == nil {
		return
	}
	enc, err := unjson.NewTypeEncoder(typ, unjson.Options{})
	if err != nil {
		f("NewTypeEncoder", nil, err)
		return
	}
	b, err = enc.Encode(nil, x)
	f("Encode", b, err)
}

// encodeOne checks every way of encoding v (by value and by pointer).
func encodeOne(t *core.T, v reflect.Value) {
	for _, ptr := range []bool{false, true} {
		x := v.Interface()
		var m encModel
		var want *jt
		var res encErr
		if ptr {
			p := cloneVal(v).Addr()
			x = p.Interface()
			want, res = m.enc(p, false, false)
		} else if v.Kind() == reflect.Ptr {
			// a pointer at the top is as good as its target
			want, res = m.enc(v, false, false)
		} else if x == nil {
			want = &jt{kind: model.Null}
		} else {
			want, res = m.enc(reflect.ValueOf(x), false, false)
		}
		if res == encSkip {
			// a type that need not be supported
			eachEncoding(x, func(how string, b []byte, err error) {
				t.Runs(1)
				if err == nil && !json.Valid(b) {
					t.Failf("%s of %s gives invalid JSON %q", how, showVal(v), b)
				}
			})
			continue
		}
		what := "value"
		if ptr {
			what = "pointer"
		}
		t.Steps(1)
		var first []byte
		eachEncoding(x, func(how string, b []byte, err error) {
			t.Runs(1)
			if res == encFail {
				if err == nil {
					t.Failf("%s of %s %s gives %s, want an error", how, what, showVal(v), clip(string(b)))
				}
				return
			}
			if err != nil {
				t.Failf("%s of %s %s fails: %v", how, what, showVal(v), err)
				return
			}
			pv, rest, perr := model.Parse(string(b))
			if perr != nil || rest != "" {
				t.Failf("%s of %s %s is not JSON: %q", how, what, showVal(v), b)
				return
			}
			if s := want.match(pv, "it"); s != "" {
				t.Failf("%s of %s %s gives %s: %s", how, what, showVal(v), clip(string(b)), s)
			}
			if !json.Valid(b) {
				t.Failf("%s of %s %s gives invalid JSON %q", how, what, showVal(v), b)
			}
			if first == nil {
				first = b
			}
		})
		// the model itself against the standard encoder
		if !m.nonstd {
			b, err, ok := stdMarshal(x)
			if !ok {
				// encoding/json calls marshalers on nil pointers in interfaces
			} else if (err != nil) != (res == encFail) {
				t.Failf("model of %s %s: fails %v, encoding/json: %v", what, showVal(v), res == encFail, err)
			} else if err == nil {
				pv, _, _ := model.Parse(string(b))
				if s := want.loose().match(pv, "it"); s != "" {
					t.Failf("model of %s %s differs from encoding/json's %s: %s", what, showVal(v), b, s)
				}
			}
		}
		if first == nil {
			continue
		}
		// appended to what is there
		fv, _, _ := model.Parse(string(first))
		for _, room := range []int{0, 1, len(first), 1000} {
			buf := make([]byte, 3, 3+room)
			copy(buf, "[1,")
			got, err := unjson.AppendJSON(buf, x)
			t.Runs(1)
			if err != nil || !strings.HasPrefix(string(got), "[1,") {
				t.Failf("appending %s %s gives %q, %v", what, showVal(v), got, err)
				continue
			}
			if string(got[3:]) != string(first) {
				gv, rest, perr := model.Parse(string(got[3:]))
				if perr != nil || rest != "" || canon(gv) != canon(fv) {
					t.Failf("appending %s %s gives %q, alone %q", what, showVal(v), got[3:], first)
				}
			}
			if string(buf) != "[1," {
				t.Failf("appending %s %s changed the start of the buffer: %q", what, showVal(v), buf)
			}
		}
	}
}

func stdMarshal(x interface{}) (b []byte, err error, ok bool) {
	defer func() { _ = recover() }()
	b, err = json.Marshal(x)
	return b, err, true
}

// loose drops what is not judged when comparing with encoding/json (which always escapes HTML).
func (x *jt) loose() *jt {
	y := *x
	y.any, y.html = true, false
	y.vals = nil
	for _, v := range x.vals {
		y.vals = append(y.vals, v.loose())
	}
	return &y
}

// canon is the compact form with sorted members.
func canon(v *model.Val) string {
	switch v.Kind {
	case model.Object:
		var m []string
		for i, k := range v.Keys {
			m = append(m, fmt.Sprintf("%q:%s", model.Unescape(k), canon(v.Vals[i])))
		}
		sort.Strings(m)
		return "{" + strings.Join(m, ",") + "}"
	case model.Array:
		var m []string
		for _, x := range v.Vals {
			m = append(m, canon(x))
		}
		return "[" + strings.Join(m, ",") + "]"
	}
	return v.Compact()
}

func encodeTypes(ts typeSet, full bool) func(t *core.T, c []byte) {
	return func(t *core.T, c []byte) {
		typ := ts.at(c)
		t.State(typ.String())
		for _, v := range goVals(typ, full, 0) {
			encodeOne(t, v)
		}
	}
}

// encodeMismatch: an encoder takes values of its type and pointers to them (an encoder of a pointer type takes what
// that of its element takes) and refuses all others.
func encodeMismatch(all typeSet) func(t *core.T, c []byte) {
	return func(t *core.T, c []byte) {
		typ := all.at(c)
		enc, err := unjson.NewTypeEncoder(typ, unjson.Options{})
		if err != nil {
			t.Failf("no encoder for %s: %v", typ, err)
			return
		}
		base := typ
		if typ.Kind() == reflect.Ptr {
			base = typ.Elem()
		}
		t.State(typ.String())
		try := func(x interface{}, other reflect.Type) {
			t.Runs(1)
			t.Steps(1)
			out, err := enc.Encode([]byte("x"), x)
			if err == nil {
				t.Failf("encoder of %s given %T gives %q", typ, x, out)
			}
		}
		try(nil, nil)
		for _, u := range all {
			p := reflect.New(u)
			if u != base && u != reflect.PtrTo(base) {
				try(p.Elem().Interface(), u)
			}
			if u != base {
				try(p.Interface(), u)
				try(reflect.Zero(p.Type()).Interface(), u)
			}
		}
		if typ.Kind() != reflect.Ptr {
			t.Runs(1)
			if out, err := enc.Encode([]byte("x"), reflect.Zero(reflect.PtrTo(typ)).Interface()); err != nil || string(out) != "xnull" {
				t.Failf("encoder of %s given a nil pointer gives %q, %v", typ, out, err)
			}
		}
	}
}

func c16(tr string) []core.Family {
	l0, l1, l2, l3 := typeLevels(tr)
	r0 := typeSet(refuseTypes)
	r1 := typeSet(append(append(typeSet{}, r0...), wrapAll(append(wrapAll(r0, wrap), r0...), wrap)...))
	mm := append(append(typeSet{}, l0...), l1...)
	if tr != "thorough" {
		mm = l0
		for _, t := range l0 {
			mm = append(mm, reflect.PtrTo(t), reflect.SliceOf(t))
		}
	}
	deep := "in 3 more layers of pointer, slice, array, map, struct over 12 types"
	if tr == "thorough" {
		deep = "in 3 more layers of every kind over all types"
	}
	return []core.Family{
		{Name: "base", Rule: "every basic type and every type of the zoo, all boundary values", Enum: l0.enum, Check: encodeTypes(l0, true), Show: l0.show},
		{Name: "one", Rule: "every container (pointer, slice, arrays of 0 and 2, map, structs with tags) of those, all boundary values at every place", Enum: l1.enum, Check: encodeTypes(l1, true), Show: l1.show},
		{Name: "two", Rule: "every container of those containers, representative values at every place", Enum: l2.enum, Check: encodeTypes(l2, false), Show: l2.show},
		{Name: "refused", Rule: "types with values that have no JSON form (NaN, infinities, channels, functions, complex numbers) and interfaces with methods, in up to 2 containers", Enum: r1.enum, Check: encodeTypes(r1, false), Show: r1.show},
		{Name: "sizes", Rule: "slices, arrays, maps, strings, structs and nestings of every size up to the bound, of the first also sizes around powers of two", Enum: func(emit func([]byte) bool) {
			for n := 0; n <= tier(tr, 140, 600); n++ {
				for k := 0; k < sizedKinds; k++ {
					if !emit([]byte{byte(k), byte(n >> 8), byte(n)}) {
						return
					}
				}
			}
			for _, n := range around(tier(tr, 8, 10), tier(tr, 10, 12)) {
				for _, k := range []int{0, 1, 2, 3, 4, 10} {
					if !emit([]byte{byte(k), byte(n >> 8), byte(n)}) {
						return
					}
				}
			}
		}, Check: func(t *core.T, c []byte) {
			v := sizedVal(int(c[0]), int(c[1])<<8|int(c[2]))
			if v.IsValid() {
				encodeOne(t, v)
			}
		}, Show: func(c []byte) string { return fmt.Sprintf("kind %d size %d", c[0], int(c[1])<<8|int(c[2])) }},
		{Name: "failing", Rule: "one part that cannot be encoded at every place of slices, arrays, maps, structs and nestings of every size up to the bound", Enum: func(emit func([]byte) bool) {
			for n := 1; n <= tier(tr, 40, 140); n++ {
				for i := 0; i < n; i++ {
					for k := 0; k < failKinds; k++ {
						if !emit([]byte{byte(k), byte(n), byte(i)}) {
							return
						}
					}
				}
			}
		}, Check: func(t *core.T, c []byte) {
			for _, bad := range failVals {
				if v := failingVal(int(c[0]), int(c[1]), int(c[2]), bad); v.IsValid() {
					encodeOne(t, v)
				}
			}
		}, Show: func(c []byte) string { return fmt.Sprintf("kind %d size %d failing at %d", c[0], c[1], c[2]) }},
		{Name: "mismatch", Rule: "encoders of every basic and zoo type and of containers of them, given values of and pointers to each of these types", Enum: mm.enum, Check: encodeMismatch(mm), Show: mm.show},
		{Name: "three", Rule: "types nested " + deep + ", representative values at every place", Enum: l3.enum, Check: encodeTypes(l3, false), Show: l3.show},
	}
}

const sizedKinds = 11

// sizedVal is a value of size n.
func sizedVal(k, n int) reflect.Value {
	switch k {
	case 0:
		return reflect.ValueOf(make([]int8, n))
	case 1:
		s := make([]interface{}, n)
		for i := range s {
			s[i] = []interface{}{i, "x", nil}
		}
		return reflect.ValueOf(s)
	case 2:
		m := map[string]int{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint("key", i)] = i
		}
		return reflect.ValueOf(m)
	case 3:
		return reflect.ValueOf(strings.Repeat("x", n))
	case 4:
		return reflect.ValueOf(strings.Repeat("y", n) + "\n" + strings.Repeat("é", n))
	case 5:
		if n > 70 {
			return reflect.Value{}
		}
		var f []reflect.StructField
		for i := 0; i < n; i++ {
			f = append(f, fld(fmt.Sprint("F", i), baseTypes[i%len(baseTypes)], []string{"", `json:",omitempty"`, fmt.Sprintf(`json:"k%d"`, i), `json:"-"`}[i%4]))
		}
		v := reflect.New(structOf(f...)).Elem()
		for i := 0; i < n; i++ {
			vs := goVals(v.Field(i).Type(), true, 0)
			v.Field(i).Set(vs[i%len(vs)])
		}
		return v
	case 6:
		var x interface{} = true
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				x = []interface{}{x}
			} else {
				x = map[string]interface{}{"k": x}
			}
		}
		return reflect.ValueOf(&x).Elem()
	case 7:
		var l *ZList
		for i := 0; i < n; i++ {
			l = &ZList{i, l}
		}
		return reflect.ValueOf(l)
	case 8:
		if n > 40 {
			return reflect.Value{}
		}
		v := reflect.ValueOf(7)
		for i := 0; i < n; i++ {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			v = p
		}
		return v
	case 9:
		a := reflect.New(reflect.ArrayOf(n, tString)).Elem()
		for i := 0; i < n; i++ {
			a.Index(i).SetString(strings.Repeat("\"", i))
		}
		return a
	case 10:
		s := make([]map[string]*ZPoint, n)
		for i := range s {
			if i%3 > 0 {
				s[i] = map[string]*ZPoint{"p": {X: float64(i)}}
			}
		}
		return reflect.ValueOf(s)
	}
	panic(k)
}

const failKinds = 6

var failVals = []interface{}{math.NaN(), ZJV{-1}, ZAV(-1), ZTV(-1), make(chan int), nil}

// failingVal has a value that cannot be encoded at one place (or nowhere).
func failingVal(k, n, at int, bad interface{}) reflect.Value {
	good := interface{}(1)
	typ := tIface
	if bad != nil && k%2 == 1 {
		if reflect.TypeOf(bad).Kind() == reflect.Chan {
			return reflect.Value{}
		}
		typ = reflect.TypeOf(bad)
		good = reflect.Zero(typ).Interface()
	}
	el := func(i int) reflect.Value {
		v := reflect.New(typ).Elem()
		x := good
		if i == at {
			x = bad
		}
		if x != nil {
			v.Set(reflect.ValueOf(x))
		}
		return v
	}
	switch k {
	case 0, 1:
		s := reflect.MakeSlice(reflect.SliceOf(typ), n, n)
		for i := 0; i < n; i++ {
			s.Index(i).Set(el(i))
		}
		return s
	case 2, 3:
		a := reflect.New(reflect.ArrayOf(n, typ)).Elem()
		for i := 0; i < n; i++ {
			a.Index(i).Set(el(i))
		}
		return a
	case 4:
		m := reflect.MakeMap(reflect.MapOf(tString, typ))
		for i := 0; i < n; i++ {
			m.SetMapIndex(reflect.ValueOf(fmt.Sprint("k", i)), el(i))
		}
		return m
	case 5:
		if n > 40 {
			return reflect.Value{}
		}
		var f []reflect.StructField
		for i := 0; i < n; i++ {
			f = append(f, fld(fmt.Sprint("F", i), typ, ""))
		}
		s := reflect.New(structOf(f...)).Elem()
		for i := 0; i < n; i++ {
			s.Field(i).Set(el(i))
		}
		return s
	}
	panic(k)
}
