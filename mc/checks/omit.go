package checks

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C20", Level: "model_checking", Families: c20, Quick: 300, Thorough: 800,
		Assumptions: []string{"The html and raw hints reach through pointers, slices and arrays of strings, not into maps, structs and interfaces. Arrays of structs that do not judge themselves are empty only when they have no elements. A raw string is written as it is; values that would break the JSON are the caller's."}})
}

// Types that judge themselves: 7 is empty for Omit, 8 for IsEmpty.
type OV struct{ N int }

func (o OV) Omit() bool    { return o.N == 7 }
func (o OV) IsEmpty() bool { return o.N == 8 }

type OP struct{ N int }

func (o *OP) Omit() bool    { return o.N == 7 }
func (o *OP) IsEmpty() bool { return o.N == 8 }

type OI int

func (o OI) Omit() bool { return o == 7 }

type OIP int

func (o *OIP) IsEmpty() bool { return *o == 8 }

type OS []int

func (o OS) Omit() bool { return len(o) == 1 }

type OSP []int

func (o *OSP) Omit() bool { return len(*o) == 1 }

type OM map[string]int

func (o OM) IsEmpty() bool { return len(o) == 1 }

type OStr string

func (o OStr) Omit() bool { return o == "omit" }

type OA [2]int

func (o OA) Omit() bool { return o[0] == 7 }

type OF float64

func (o OF) Omit() bool { return o != 0 }

type OB bool

func (o OB) Omit() OBool    { return OBool(o) }
func (o OB) IsEmpty() OBool { return OBool(!o) }

type OBool bool

// Not the right signature.
type OW int

func (o OW) Omit() int              { return 0 }
func (o OW) IsEmpty() (bool, error) { return true, nil }

type OW2 int

func (o OW2) Omit(int) bool            { return true }
func (o OW2) IsEmpty(xs ...int) bool   { return true }
func (o OW2) omit() bool               { return true }
func (o OW2) Unrelated() (a bool)      { return true }
func (o *OW2) Other(x interface{}) int { return 1 }

// By promotion.
type OE struct {
	OV
	X int
}
type OEP struct {
	*OP
	X int
}

// Marshal themselves as well.
type OJ struct{ N int }

func (o OJ) Omit() bool                   { return o.N == 7 }
func (o OJ) MarshalJSON() ([]byte, error) { return []byte(`"oj"`), nil }

type OJP struct{ N int }

func (o *OJP) Omit() bool                  { return o.N == 7 }
func (o OJP) MarshalText() ([]byte, error) { return []byte("ojp"), nil }

// Structs of omissible members.
type ONest struct {
	A int    `json:",omitempty"`
	B string `json:"b,omitempty" x:"-"`
	C *int   `json:",omitempty" x:",omitempty"`
}
type ONest2 struct {
	ONest
	D ONest `json:",omitempty" x:",omitempty"`
	E OV    `json:",omitempty" x:"e"`
}
type ONone struct{}
type OHidden struct {
	a int
	B int `json:"-" x:"-"`
}

var omitVals = map[reflect.Type][]interface{}{}

func init() {
	for _, l := range [][]interface{}{
		{OV{0}, OV{7}, OV{8}}, {OP{0}, OP{7}, OP{8}}, {OI(0), OI(7), OI(8)}, {OIP(0), OIP(7), OIP(8)},
		{OS(nil), OS{}, OS{1}, OS{1, 2}}, {OSP(nil), OSP{}, OSP{1}, OSP{1, 2}}, {OM(nil), OM{}, OM{"a": 1}, OM{"a": 1, "b": 2}},
		{OStr(""), OStr("omit"), OStr("x")}, {OA{}, OA{7, 1}, OA{1, 7}}, {OF(0), OF(1)}, {OB(false), OB(true)},
		{OW(0), OW(7)}, {OW2(0), OW2(7)}, {OE{}, OE{OV{7}, 1}, OE{OV{8}, 0}}, {OEP{&OP{0}, 0}, OEP{&OP{7}, 1}, OEP{&OP{8}, 1}},
		{OJ{0}, OJ{7}}, {OJP{0}, OJP{7}}, {ONest{}, ONest{A: 1}, ONest{B: "b"}, ONest{C: ip(0)}},
		{ONest2{}, ONest2{D: ONest{A: 1}}, ONest2{E: OV{7}}, ONest2{E: OV{8}}, ONest2{ONest: ONest{C: ip(1)}, E: OV{7}}, ONest2{D: ONest{B: "b"}, E: OV{7}}},
		{ONone{}}, {OHidden{}, OHidden{1, 2}},
		{OUptr(0), OUptr(7)}, {OCplx(0), OCplx(7i)}, {OChan(nil), make(OChan)}, {OFunc(nil), OFunc(func() {})},
	} {
		omitVals[reflect.TypeOf(l[0])] = l
		omitTypes = append(omitTypes, reflect.TypeOf(l[0]))
	}
}

var omitTypes typeSet

// Types of kinds that only their own methods can encode.
type OUptr uintptr
type OCplx complex64
type OChan chan int
type OFunc func()

func (o OUptr) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("u%d", o)), nil }
func (o *OUptr) UnmarshalText([]byte) error  { return nil }
func (o OCplx) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf("[%g,%g]", real(o), imag(o))), nil
}
func (o *OCplx) UnmarshalJSON([]byte) error         { return nil }
func (o OChan) MarshalText() ([]byte, error)        { return []byte(fmt.Sprint(o == nil)), nil }
func (o *OChan) UnmarshalText([]byte) error         { return nil }
func (o OFunc) AppendJSON(b []byte) ([]byte, error) { return append(b, fmt.Sprint(o == nil)...), nil }
func (o *OFunc) UnmarshalNodeJSON(njson.Node) error { return nil }

// plainWrap wraps without struct tags.
func plainWrap(t reflect.Type) []reflect.Type {
	return []reflect.Type{reflect.PtrTo(t), reflect.SliceOf(t), reflect.ArrayOf(0, t), reflect.ArrayOf(1, t), reflect.ArrayOf(2, t), reflect.MapOf(tString, t), structOf(fld("A", t, `json:",omitempty"`)), structOf(fld("A", t, `x:",omitempty"`), fld("B", tInt, `json:",omitempty"`))}
}

// parseLoose reads JSON that may hold NaN and infinities.
func parseLoose(s string) (*model.Val, bool) {
	var b []byte
	in := false
	for i := 0; i < len(s); i++ {
		if in {
			if s[i] == '\\' && i+1 < len(s) {
				b = append(b, s[i])
				i++
			} else if s[i] == '"' {
				in = false
			}
			b = append(b, s[i])
			continue
		}
		if s[i] == '"' {
			in = true
		}
		if strings.HasPrefix(s[i:], "NaN") || strings.HasPrefix(s[i:], "+Inf") {
			b = append(b, '-')
		}
		b = append(b, s[i])
	}
	v, rest, err := model.Parse(string(b))
	if err != nil || rest != "" {
		return nil, false
	}
	var f func(v *model.Val)
	f = func(v *model.Val) {
		if v.Kind == model.Number && (v.Raw == "-NaN" || v.Raw == "-+Inf") {
			v.Raw = v.Raw[1:]
		}
		for _, x := range v.Vals {
			f(x)
		}
	}
	f(v)
	return v, true
}

// encodeWith checks what v is encoded to with the options.
func encodeWith(t *core.T, v reflect.Value, o unjson.Options, enc, penc unjson.Encoder) {
	for _, ptr := range []bool{false, true} {
		m := encModel{o: o}
		e, x, src := enc, v.Interface(), reflect.ValueOf(v.Interface())
		if ptr {
			p := cloneVal(v).Addr()
			e, x, src = penc, p.Interface(), p
		}
		want, res := m.enc(src, false, false)
		if res == encSkip && !m.unspec {
			continue
		}
		t.Runs(1)
		t.Steps(1)
		b, err := e.Encode(nil, x)
		if m.unspec {
			continue
		}
		if res == encFail {
			if err == nil {
				t.Failf("%s with %+v gives %s, want an error", showVal(v), o, clip(string(b)))
			}
			continue
		}
		if err != nil {
			t.Failf("%s with %+v fails: %v", showVal(v), o, err)
			continue
		}
		pv, ok := parseLoose(string(b))
		if !ok {
			t.Failf("%s with %+v gives %q", showVal(v), o, b)
			continue
		}
		if s := want.match(pv, "it"); s != "" {
			t.Failf("%s with %+v gives %s: %s", showVal(v), o, clip(string(b)), s)
		}
	}
}

func optionsAll() (out []unjson.Options) {
	for _, tag := range []string{"", "json", "x"} {
		for _, om := range []bool{false, true} {
			for _, meth := range []string{"", "Omit", "IsEmpty", "Nope"} {
				for _, nan := range []bool{false, true} {
					for _, inf := range []bool{false, true} {
						out = append(out, unjson.Options{Tag: tag, OmitEmpty: om, OmitMethod: meth, AllowNaN: nan, AllowInf: inf})
					}
				}
			}
		}
	}
	return
}

func withOptions(t *core.T, typ reflect.Type, vals []reflect.Value, opts []unjson.Options) {
	t.State(typ.String())
	for _, o := range opts {
		// a cache keeps its encoder; one made for the pointer type must be as good
		var c unjson.Cache
		c.Options = o
		enc, err := c.Encoder(typ)
		if err != nil {
			t.Failf("no encoder for %s with %+v: %v", typ, o, err)
			return
		}
		penc, err := unjson.NewTypeEncoder(reflect.PtrTo(typ), o)
		if err != nil {
			t.Failf("no encoder for *%s with %+v: %v", typ, o, err)
			return
		}
		for _, v := range vals {
			encodeWith(t, v, o, enc, penc)
		}
	}
}

// omitOptions leaves out the number options.
func omitOptions() (out []unjson.Options) {
	for _, o := range optionsAll() {
		if !o.AllowNaN && !o.AllowInf {
			out = append(out, o)
		}
	}
	return
}

func numOptions() (out []unjson.Options) {
	for _, o := range optionsAll() {
		if o.Tag == "" && o.OmitMethod == "" {
			out = append(out, o)
		}
	}
	return
}

// omitField: a field of the type, marked in different ways.
func omitField(t *core.T, typ reflect.Type, full bool) {
	st := structOf(fld("F", typ, `json:"f,omitempty" x:"g"`), fld("G", typ, `json:"h" x:"g2,omitempty"`), fld("H", typ, `x:"-"`))
	var vals []reflect.Value
	vs := goVals(typ, full, 0)
	for _, v := range vs {
		s := reflect.New(st).Elem()
		s.Field(0).Set(v)
		s.Field(1).Set(v)
		s.Field(2).Set(v)
		vals = append(vals, s)
	}
	withOptions(t, st, vals, omitOptions())
}

var hintSets = []string{"", ",html", ",8bit", ",omitempty", ",html,8bit", ",8bit,html", ",omitempty,html", ",8bit,omitempty", ",html,omitempty,8bit", ",HTML", ",8bits", ",,html", ",x,,8bit", ",,omitempty", ",html,,8bit", ",html,", ",xhtml", ",x8bit,x", ",xomitempty"}

type HStr string
type HMap map[string]string
type HStruct struct {
	S string
	P *string `json:",html" x:",8bit"`
}

func hintTypes() (out typeSet) {
	base := []reflect.Type{tString, reflect.TypeOf(HStr(""))}
	l1 := wrapAll(base, wrapHint)
	l2 := wrapAll(l1, wrapHint)
	out = append(out, base...)
	out = append(out, l1...)
	out = append(out, l2...)
	return append(out, tIface, reflect.SliceOf(tIface), reflect.TypeOf(HMap{}), reflect.TypeOf(HStruct{}), reflect.TypeOf([]HStruct{}), reflect.TypeOf(ZTV(0)), reflect.TypeOf(ZJS("")), tInt, reflect.TypeOf(true), reflect.TypeOf(1.5))
}

func wrapHint(t reflect.Type) []reflect.Type {
	return []reflect.Type{reflect.PtrTo(t), reflect.SliceOf(t), reflect.ArrayOf(2, t), reflect.MapOf(tString, t), structOf(fld("A", t, ""), fld("B", t, `json:",html" x:",8bit"`))}
}

var hintStrings = []string{"", "abc", "<&>", "é世\u2028", "\x80\xff", `a\n`}

// hintVal fills every string with s.
func hintVal(t reflect.Type, s string) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(s)
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		p.Elem().Set(hintVal(t.Elem(), s))
		v.Set(p)
	case reflect.Slice:
		v.Set(reflect.Append(reflect.Append(v, hintVal(t.Elem(), s)), hintVal(t.Elem(), s)))
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(hintVal(t.Elem(), s))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		v.SetMapIndex(reflect.ValueOf("k<").Convert(t.Key()), hintVal(t.Elem(), s))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(hintVal(t.Field(i).Type, s))
		}
	case reflect.Interface:
		v.Set(reflect.ValueOf(s))
	}
	return v
}

func hintVals(st reflect.Type) (vals []reflect.Value) {
	for _, s := range hintStrings {
		vals = append(vals, hintVal(st, s))
	}
	return
}

// hintPair: two fields of one type with different hints in one struct.
func hintPair(t *core.T, typ reflect.Type, h int) {
	for k := range hintSets {
		st := structOf(
			fld("A", typ, tg("json", "a"+hintSets[h])+" "+tg("x", "b"+hintSets[k])),
			fld("B", typ, tg("json", "b"+hintSets[k])+" "+tg("x", "c"+hintSets[h])),
			fld("C", reflect.PtrTo(typ), tg("json", "c"+hintSets[h])))
		vals := hintVals(st)
		withOptions(t, st, vals, []unjson.Options{{}, {Tag: "x"}, {Tag: "json", OmitEmpty: true}})
	}
	// names that are hints elsewhere
	st := structOf(
		fld("A", typ, tg("json", "html"+hintSets[h])+" "+tg("x", "8bit"+hintSets[h])),
		fld("B", typ, tg("json", "omitempty"+hintSets[h])+" "+tg("x", "html"+hintSets[h])),
		fld("C", reflect.PtrTo(typ), tg("json", "8bit"+hintSets[h])))
	withOptions(t, st, hintVals(st), []unjson.Options{{}, {Tag: "x"}})
}

// Floats.
func floatTypes() (out typeSet) {
	base := []reflect.Type{reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(ZFloat(0)), reflect.TypeOf(ZFloat32(0)), tIface}
	l1 := wrapAll(base, wrap)
	l2 := wrapAll(l1, wrap)
	out = append(append(append(out, base[:4]...), l1...), l2...)
	return
}

var specials = []float64{0, 1.5, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat32}

// floatVals puts a special float at every place of a value of type t, and the others at every other place.
func floatVal(t reflect.Type, next func() float64) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Float32, reflect.Float64:
		v.SetFloat(next())
	case reflect.String:
		v.SetString("NaN+Inf")
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		p.Elem().Set(floatVal(t.Elem(), next))
		v.Set(p)
	case reflect.Slice:
		v.Set(reflect.Append(reflect.Append(v, floatVal(t.Elem(), next)), floatVal(t.Elem(), next)))
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(floatVal(t.Elem(), next))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		v.SetMapIndex(reflect.ValueOf("NaN").Convert(t.Key()), floatVal(t.Elem(), next))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(floatVal(t.Field(i).Type, next))
		}
	case reflect.Interface:
		f := next()
		switch int(math.Float64bits(f)>>52) & 3 {
		case 0:
			v.Set(reflect.ValueOf(f))
		case 1:
			v.Set(reflect.ValueOf(float32(f)))
		default:
			v.Set(reflect.ValueOf([]interface{}{f, &f, map[string]float64{"f": f}}))
		}
	}
	return v
}

func floatAll(t *core.T, typ reflect.Type) {
	var vals []reflect.Value
	for _, a := range specials {
		for _, b := range specials {
			for at := 0; at < 3; at++ {
				k := -1
				vals = append(vals, floatVal(typ, func() float64 {
					if k++; k == at {
						return a
					}
					return b
				}))
			}
		}
	}
	withOptions(t, typ, vals, numOptions())
}

func c20(tr string) []core.Family {
	l0, l1, _, _ := typeLevels(tr)
	o1 := typeSet(wrapAll(omitTypes, plainWrap))
	o2 := typeSet(wrapAll(o1, plainWrap))
	omitBase := append(append(typeSet{}, omitTypes...), l0...)
	omitOne := append(append(typeSet{}, o1...), l1...)
	fam := func(ts typeSet, full bool) (func(emit func([]byte) bool), func(t *core.T, c []byte), func([]byte) string) {
		return ts.enum, func(t *core.T, c []byte) { omitField(t, ts.at(c), full) }, ts.show
	}
	hs := hintTypes()
	fs := floatTypes()
	e0, k0, s0 := fam(omitBase, true)
	e1, k1, s1 := fam(omitOne, true)
	e2, k2, s2 := fam(o2, false)
	out := []core.Family{
		{Name: "omit", Rule: "fields of every basic, zoo and self-judging type, marked or not under two tags, all boundary values, 24 option sets", Enum: e0, Check: k0, Show: s0},
		{Name: "omit1", Rule: "the same for every container of those", Enum: e1, Check: k1, Show: s1},
		{Name: "hints", Rule: "every type of up to 2 containers of strings, every pair of hint lists for two fields of it, 3 option sets, and names that are hints", Enum: func(emit func([]byte) bool) {
			for h := range hintSets {
				ok := true
				hs.enum(func(c []byte) bool { ok = emit(append(append([]byte{}, c...), byte(h))); return ok })
				if !ok {
					return
				}
			}
		}, Check: func(t *core.T, c []byte) { hintPair(t, hs.at(c), int(c[3])) }, Show: func(c []byte) string { return hs.show(c) + " " + hintSets[c[3]] }},
		{Name: "numbers", Rule: "every type of up to 2 containers of floats, every pair of special values at every place, NaN, infinity and omission options", Enum: fs.enum, Check: func(t *core.T, c []byte) { floatAll(t, fs.at(c)) }, Show: fs.show},
		{Name: "omit2", Rule: "two containers of self-judging types, representative values, 24 option sets", Enum: e2, Check: k2, Show: s2},
	}
	return out
}

var _ = fmt.Sprint
