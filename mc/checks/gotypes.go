package checks

import (
	"fmt"
	"math"
	"reflect"
)

// Grammar of Go types and values for the reflective codec.

var (
	tIface  = reflect.TypeOf((*interface{})(nil)).Elem()
	tString = reflect.TypeOf("")
)

func typesOf(xs ...interface{}) (out []reflect.Type) {
	for _, x := range xs {
		out = append(out, reflect.TypeOf(x))
	}
	return
}

var baseTypes = append(typesOf(false, int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0), ""), tIface)

// zooIndex finds the zoo entry of a type.
var zooIndex = func() map[reflect.Type]int {
	m := map[reflect.Type]int{}
	for i, z := range zooTypes {
		m[reflect.TypeOf(z.vals[0])] = i
	}
	return m
}()

func zooList() (out []reflect.Type) {
	for _, z := range zooTypes {
		out = append(out, reflect.TypeOf(z.vals[0]))
	}
	return
}

func structOf(fields ...reflect.StructField) reflect.Type { return reflect.StructOf(fields) }

func fld(name string, t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
}

// wrap lists the types built directly on t.
func wrap(t reflect.Type) []reflect.Type {
	return []reflect.Type{
		reflect.PtrTo(t),
		reflect.SliceOf(t),
		reflect.ArrayOf(0, t),
		reflect.ArrayOf(2, t),
		reflect.MapOf(tString, t),
		structOf(fld("A", t, "")),
		structOf(fld("A", t, `json:"a,omitempty"`), fld("B", tString, `json:"-"`), fld("C", tString, `json:"c"`)),
	}
}

// wrapShort is a selection of wrap for deeper levels.
func wrapShort(t reflect.Type) []reflect.Type {
	return []reflect.Type{
		reflect.PtrTo(t),
		reflect.SliceOf(t),
		reflect.ArrayOf(2, t),
		reflect.MapOf(tString, t),
		structOf(fld("A", t, `json:",omitempty"`), fld("B", t, "")),
	}
}

func wrapAll(ts []reflect.Type, f func(reflect.Type) []reflect.Type) (out []reflect.Type) {
	for _, t := range ts {
		out = append(out, f(t)...)
	}
	return
}

var scalarVals = map[reflect.Kind][]interface{}{
	reflect.Bool:    {false, true},
	reflect.Int:     {0, 1, -1, math.MaxInt64, math.MinInt64, 1<<53 + 1},
	reflect.Int8:    {0, 1, -1, 127, -128},
	reflect.Int16:   {0, 1, -1, 32767, -32768},
	reflect.Int32:   {0, 1, -1, math.MaxInt32, math.MinInt32},
	reflect.Int64:   {0, 1, -1, math.MaxInt64, math.MinInt64, -(1<<53 + 1)},
	reflect.Uint:    {0, 1, uint64(math.MaxUint64), 1<<53 + 1},
	reflect.Uint8:   {0, 1, 255},
	reflect.Uint16:  {0, 1, 65535},
	reflect.Uint32:  {0, 1, math.MaxUint32},
	reflect.Uint64:  {0, 1, uint64(math.MaxUint64), uint64(1 << 63), 1<<53 + 1},
	reflect.Float32: {0.0, math.Copysign(0, -1), 1.0, -1.5, 0.1, 16777216.0, math.MaxFloat32, math.SmallestNonzeroFloat32, 1e21, 1e-7},
	reflect.Float64: {0.0, math.Copysign(0, -1), 1.0, -1.5, 0.1, 16777217.0, math.MaxFloat64, 5e-324, 1e21, 1e-7, 1e20, 1e-6, 123456789.0, math.Pi},
	reflect.String:  {"", "a", "<&>\"\\/", "\n\r\t\b\f\x01\x1f\x7f", "\u2028\u2029é世😀\ufffd", "\x80é", "a longer text that does not need any escaping at all, but has some length"},
}

type ifStruct struct {
	A int
	B interface{} `json:"b"`
}

var ifaceVals = []interface{}{nil, true, 1.5, "s<", []interface{}{}, []interface{}{nil, 1.0, "x"}, map[string]interface{}{}, map[string]interface{}{"k": []interface{}{false}},
	int(7), uint8(255), int64(math.MaxInt64), float32(0.1), []int{1, 2}, []string{}, map[string]int{"a": 1}, ip(5), (*int)(nil), ifStruct{1, nil}, &ifStruct{2, "x"}, ifStruct{3, ifStruct{4, ip(1)}}, [2]bool{true}, ZJV{2}, &ZJP{3}, ZJP{3}, ZTV(4), &ZTP{"q"}, ZAV(1), (*ZJP)(nil), (*ZTV)(nil), []interface{}{ZJP{1}, &ZJP{1}}}

// goVals lists values of a type: full gives all boundary values of the parts, otherwise a few.
// Every other component of a composite is kept at its first and at its last value while one goes through all of its own.
func goVals(t reflect.Type, full bool, depth int) (out []reflect.Value) {
	if depth > 8 {
		return []reflect.Value{reflect.Zero(t)}
	}
	few := func(vs []reflect.Value) []reflect.Value {
		if full || len(vs) <= 3 {
			return vs
		}
		return []reflect.Value{vs[0], vs[1], vs[len(vs)-1]}
	}
	if i, ok := zooIndex[t]; ok {
		return zooVals(i)
	}
	xs := refuseVals[t]
	if xs == nil {
		xs = omitVals[t]
	}
	if xs != nil {
		for _, x := range xs {
			v := reflect.New(t).Elem()
			if x != nil {
				v.Set(reflect.ValueOf(x))
			}
			out = append(out, v)
		}
		return
	}
	if t == tIface {
		for _, x := range ifaceVals {
			v := reflect.New(t).Elem()
			if x != nil {
				v.Set(reflect.ValueOf(x))
			}
			out = append(out, v)
		}
		return few(out)
	}
	if xs := scalarVals[t.Kind()]; xs != nil {
		for _, x := range xs {
			out = append(out, reflect.ValueOf(x).Convert(t))
		}
		return few(out)
	}
	in := func() []reflect.Value { return goVals(t.Elem(), full, depth+1) }
	switch t.Kind() {
	case reflect.Ptr:
		out = append(out, reflect.Zero(t))
		for _, v := range in() {
			p := reflect.New(t.Elem())
			p.Elem().Set(v)
			out = append(out, p.Convert(t))
		}
	case reflect.Slice:
		vs := in()
		out = append(out, reflect.Zero(t), reflect.MakeSlice(t, 0, 0))
		for _, v := range vs {
			s := reflect.MakeSlice(t, 1, 1)
			s.Index(0).Set(v)
			out = append(out, s)
			s = reflect.MakeSlice(t, 3, 5)
			s.Index(0).Set(vs[len(vs)-1])
			s.Index(1).Set(v)
			s.Index(2).Set(vs[0])
			out = append(out, s)
		}
	case reflect.Array:
		vs := in()
		if t.Len() == 0 {
			return []reflect.Value{reflect.Zero(t)}
		}
		for _, v := range vs {
			for i := 0; i < t.Len(); i++ {
				a := reflect.New(t).Elem()
				for j := 0; j < t.Len(); j++ {
					a.Index(j).Set(vs[0])
				}
				a.Index(i).Set(v)
				out = append(out, a)
			}
			a := reflect.New(t).Elem()
			for j := 0; j < t.Len(); j++ {
				a.Index(j).Set(v)
			}
			out = append(out, a)
		}
	case reflect.Map:
		vs := in()
		out = append(out, reflect.Zero(t), reflect.MakeMap(t))
		for _, v := range vs {
			m := reflect.MakeMap(t)
			m.SetMapIndex(reflect.ValueOf("k").Convert(t.Key()), v)
			out = append(out, m)
			m = reflect.MakeMap(t)
			m.SetMapIndex(reflect.ValueOf("").Convert(t.Key()), v)
			m.SetMapIndex(reflect.ValueOf("b\"<\n").Convert(t.Key()), vs[0])
			m.SetMapIndex(reflect.ValueOf("zz").Convert(t.Key()), vs[len(vs)-1])
			out = append(out, m)
		}
	case reflect.Struct:
		n := t.NumField()
		lists := make([][]reflect.Value, n)
		for i := 0; i < n; i++ {
			if t.Field(i).PkgPath == "" {
				lists[i] = goVals(t.Field(i).Type, full, depth+1)
			}
		}
		mk := func(pick func(i int) int) {
			s := reflect.New(t).Elem()
			for i, l := range lists {
				if l != nil {
					s.Field(i).Set(l[pick(i)])
				}
			}
			out = append(out, s)
		}
		mk(func(int) int { return 0 })
		mk(func(i int) int { return len(lists[i]) - 1 })
		for f, l := range lists {
			for k := range l {
				mk(func(i int) int {
					if i == f {
						return k
					}
					return 0
				})
				if n > 1 {
					mk(func(i int) int {
						if i == f {
							return k
						}
						return len(lists[i]) - 1
					})
				}
			}
		}
	default:
		panic(fmt.Sprint("no values of ", t))
	}
	return
}

// cloneVal makes an addressable copy.
func cloneVal(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Elem()
}

func showVal(v reflect.Value) string {
	s := fmt.Sprintf("%#v", v.Interface())
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}
