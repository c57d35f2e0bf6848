package checks

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C18", Level: "model_checking", Families: c18, Quick: 200, Thorough: 800,
		Assumptions: []string{"Types that marshal themselves count when their own unmarshal method inverts their marshal method. A pointer to something that is written as null comes back nil, a value in an empty interface comes back as the generic value of its JSON, invalid UTF-8 comes back as replacement characters, omitted and skipped fields come back zero."}})
}

// oneWay types do not come back by their own methods.
var oneWay = map[reflect.Type]bool{}

func init() {
	for _, x := range []interface{}{ZJM{}, ZTM{}, ZTVJP{}, ZAJ{}, ZUonly{}, ZBad(""), ZEmbV{}, ZEmbP{}, ZJL{}, ZJonly{}, map[ZTStr]int{}} {
		oneWay[reflect.TypeOf(x)] = true
	}
}

func anyPart(t reflect.Type, bad func(reflect.Type) bool) bool {
	seen := map[reflect.Type]bool{}
	var f func(t reflect.Type) bool
	f = func(t reflect.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if bad(t) {
			return true
		}
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
			return f(t.Elem())
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				if f(t.Field(i).Type) {
					return true
				}
			}
		}
		return false
	}
	return f(t)
}

var (
	tTime = reflect.TypeOf(time.Time{})
	tRaw  = reflect.TypeOf(json.RawMessage{})
	tBig  = reflect.TypeOf(big.Int{})
	tIP   = reflect.TypeOf(net.IP{})
)

// back checks that got is what should come back for v, encoded as pv.
func back(m *encModel, got, v reflect.Value, pv *model.Val, path string) string {
	t := v.Type()
	bad := func(want interface{}) string {
		return fmt.Sprintf("%s comes back as %s, want %v", path, showVal(got), want)
	}
	switch t {
	case tTime:
		if !got.Interface().(time.Time).Equal(v.Interface().(time.Time)) {
			return bad(v.Interface())
		}
		return ""
	case tRaw:
		if string(got.Bytes()) != pv.Compact() {
			return bad(pv.Compact())
		}
		return ""
	case tBig:
		a, b := got.Interface().(big.Int), v.Interface().(big.Int)
		if a.Cmp(&b) != 0 {
			return bad(b.String())
		}
		return ""
	case tIP:
		if !got.Interface().(net.IP).Equal(v.Interface().(net.IP)) {
			return bad(v.Interface())
		}
		return ""
	}
	if _, ok := zooIndex[t]; ok && (selfMarshals(t) || selfMarshals(reflect.PtrTo(t))) {
		if !sameVal(got, v) {
			return bad(showVal(v))
		}
		return ""
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() || pv.Kind == model.Null {
			if !got.IsNil() {
				return bad("nil")
			}
			return ""
		}
		if got.IsNil() {
			return bad("a pointer")
		}
		return back(m, got.Elem(), v.Elem(), pv, path)
	case reflect.Interface:
		x, e := generic(pv)
		if e != encOK {
			return ""
		}
		w := reflect.New(t).Elem()
		if x != nil {
			w.Set(reflect.ValueOf(x))
		}
		if !sameVal(got, w) {
			return bad(x)
		}
		return ""
	case reflect.String:
		if got.String() != model.ValidUTF8(v.String()) {
			return bad(strconv.Quote(v.String()))
		}
		return ""
	case reflect.Slice, reflect.Array:
		if got.Len() != v.Len() || got.Len() != len(pv.Vals) || t.Kind() == reflect.Slice && got.IsNil() {
			return bad(showVal(v))
		}
		for i := 0; i < v.Len(); i++ {
			if s := back(m, got.Index(i), v.Index(i), pv.Vals[i], fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
		return ""
	case reflect.Map:
		if got.IsNil() != v.IsNil() || got.Len() != v.Len() {
			return bad(showVal(v))
		}
		for _, k := range v.MapKeys() {
			x := got.MapIndex(k)
			if !x.IsValid() {
				return bad(showVal(v))
			}
			var key string
			if k.Kind() == reflect.String {
				key = k.String()
			} else {
				b, _ := k.Interface().(interface{ MarshalText() ([]byte, error) }).MarshalText()
				key = string(b)
			}
			sub := member(pv, key)
			if sub == nil {
				return fmt.Sprintf("%s has no member %q", path, key)
			}
			if s := back(m, x, v.MapIndex(k), sub, fmt.Sprintf("%s[%q]", path, key)); s != "" {
				return s
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := m.field(t.Field(i))
			fp := path + "." + t.Field(i).Name
			if f.skip || f.omit && m.empty(v.Field(i)) {
				if !sameVal(got.Field(i), reflect.Zero(t.Field(i).Type)) {
					return fmt.Sprintf("%s is set: %s", fp, showVal(got))
				}
				continue
			}
			sub := member(pv, f.name)
			if sub == nil {
				return fmt.Sprintf("%s is not in the JSON", fp)
			}
			if s := back(m, got.Field(i), v.Field(i), sub, fp); s != "" {
				return s
			}
		}
		return ""
	}
	if !sameVal(got, v) {
		return bad(showVal(v))
	}
	return ""
}

func isZoo(t reflect.Type) bool { _, ok := zooIndex[t]; return ok }

func hasNull(v *model.Val) bool {
	if v.Kind == model.Null {
		return true
	}
	for _, x := range v.Vals {
		if hasNull(x) {
			return true
		}
	}
	return false
}

func member(pv *model.Val, key string) *model.Val {
	for i, k := range pv.Keys {
		if model.Unescape(k) == key {
			return pv.Vals[i]
		}
	}
	return nil
}

// looseCanon is the compact form with sorted members and numbers as floats.
func looseCanon(v *model.Val) string {
	switch v.Kind {
	case model.Object:
		var m []string
		for i, k := range v.Keys {
			m = append(m, fmt.Sprintf("%q:%s", model.Unescape(k), looseCanon(v.Vals[i])))
		}
		sort.Strings(m)
		return "{" + strings.Join(m, ",") + "}"
	case model.Array:
		var m []string
		for _, x := range v.Vals {
			m = append(m, looseCanon(x))
		}
		return "[" + strings.Join(m, ",") + "]"
	case model.Number:
		f, _ := strconv.ParseFloat(v.Raw, 64)
		return strconv.FormatFloat(f, 'g', -1, 64)
	case model.String:
		return strconv.Quote(model.Unescape(v.Raw))
	}
	return v.Raw
}

var roundOptions = []unjson.Options{
	{},
	{OmitEmpty: true},
	{Tag: "x"},
	{Tag: "x", OmitEmpty: true, OmitMethod: "IsEmpty", AllowNaN: true, AllowInf: true},
}

// roundTrip sends v to JSON and back.
func roundTrip(t *core.T, v reflect.Value, o unjson.Options) {
	typ := v.Type()
	m := &encModel{o: o}
	var cache unjson.Cache
	cache.Options = o
	what := fmt.Sprintf("%s (options %+v)", showVal(v), o)
	enc, err := cache.Encoder(reflect.PtrTo(typ))
	if err != nil {
		t.Failf("no encoder for %s: %v", typ, err)
		return
	}
	dec, err := cache.Decoder(reflect.PtrTo(typ))
	if err != nil {
		t.Failf("no decoder for %s: %v", typ, err)
		return
	}
	p := cloneVal(v).Addr()
	if _, e := m.enc(p, false, false); e != encOK {
		return
	}
	b, err := enc.Encode(nil, p.Interface())
	t.Steps(1)
	if err != nil {
		t.Failf("%s is not encoded: %v", what, err)
		return
	}
	pv, rest, perr := model.Parse(string(b))
	if perr != nil || rest != "" {
		t.Failf("%s is encoded as %q", what, b)
		return
	}
	d := new(njson.Document)
	n, _, err := d.Parse(string(b))
	if err != nil {
		t.Failf("%s is encoded as %q: %v", what, b, err)
		return
	}
	t.Runs(1)
	q := reflect.New(typ)
	if err := dec.Decode(q.Interface(), n); err != nil {
		t.Failf("%s, encoded as %s, does not decode: %v", what, clip(string(b)), err)
		return
	}
	if s := back(m, q.Elem(), v, pv, "it"); s != "" {
		t.Failf("%s, encoded as %s, decodes to %s: %s", what, clip(string(b)), showVal(q.Elem()), s)
		return
	}
	b2, err := enc.Encode(nil, q.Interface())
	if err != nil {
		t.Failf("%s, decoded from %s, does not encode: %v", showVal(q.Elem()), clip(string(b)), err)
		return
	}
	pv2, rest, perr := model.Parse(string(b2))
	if hasNull(pv) && (o.OmitEmpty || strings.Contains(typ.String(), "omitempty") || anyPart(typ, isZoo)) {
		// a pointer to nothing comes back as a nil pointer, which is empty
	} else if perr != nil || rest != "" || looseCanon(pv2) != looseCanon(pv) {
		t.Failf("%s is encoded as %s, and when decoded and encoded again as %s", what, clip(string(b)), clip(string(b2)))
	}
	if o == (unjson.Options{}) {
		q := reflect.New(typ)
		b, err := unjson.Marshal(v.Interface())
		if err != nil {
			t.Failf("%s is not marshaled: %v", what, err)
			return
		}
		pv, _, perr := model.Parse(string(b))
		if perr != nil {
			t.Failf("%s is marshaled as %q", what, b)
			return
		}
		if err := unjson.Unmarshal(b, q.Interface()); err != nil {
			// what only marshals itself by pointer is written by its fields when it cannot be addressed
			if !anyPart(typ, pointerOnly) {
				t.Failf("%s, marshaled as %s, does not unmarshal: %v", what, clip(string(b)), err)
			}
		} else if s := back(m, q.Elem(), v, pv, "it"); s != "" && !anyPart(typ, pointerOnly) {
			t.Failf("%s, marshaled as %s, unmarshals to %s: %s", what, clip(string(b)), showVal(q.Elem()), s)
		}
	}
}

// pointerOnly types marshal themselves only when addressable. (The values of maps and interfaces never are.)
func pointerOnly(t reflect.Type) bool {
	return t.Kind() != reflect.Ptr && t.Kind() != reflect.Interface && !selfMarshals(t) && selfMarshals(reflect.PtrTo(t))
}

func mapOfPointerOnly(t reflect.Type) bool {
	return t.Kind() == reflect.Map && anyPart(t.Elem(), pointerOnly)
}

func xwrap(t reflect.Type) []reflect.Type {
	return []reflect.Type{
		reflect.PtrTo(t),
		reflect.SliceOf(t),
		reflect.ArrayOf(2, t),
		reflect.MapOf(tString, t),
		structOf(fld("A", t, `x:"a,omitempty" json:"b"`), fld("B", tString, `x:"-"`), fld("C", t, `json:"-"`), fld("D", tString, `x:",html"`)),
		structOf(fld("A", t, `json:"B" x:",omitempty"`), fld("B", t, `json:"A"`)),
	}
}

func c18(tr string) []core.Family {
	l0, l1, l2, l3 := typeLevels(tr)
	x1 := typeSet(wrapAll(l0, xwrap))
	x2 := typeSet(wrapAll(x1, xwrap))
	round := func(ts typeSet, full bool) func(t *core.T, c []byte) {
		return func(t *core.T, c []byte) {
			typ := ts.at(c)
			if anyPart(typ, func(t reflect.Type) bool { return oneWay[t] || mapOfPointerOnly(t) }) {
				return
			}
			t.State(typ.String())
			for _, v := range goVals(typ, full, 0) {
				for _, o := range roundOptions {
					roundTrip(t, v, o)
				}
			}
		}
	}
	return []core.Family{
		{Name: "base", Rule: "every basic type and every type of the zoo, all boundary values, 4 option sets", Enum: l0.enum, Check: round(l0, true), Show: l0.show},
		{Name: "one", Rule: "every container of those, all boundary values at every place, 4 option sets", Enum: l1.enum, Check: round(l1, true), Show: l1.show},
		{Name: "tags", Rule: "containers with custom tags, all boundary values, 4 option sets", Enum: x1.enum, Check: round(x1, true), Show: x1.show},
		{Name: "two", Rule: "every container of containers, representative values, 4 option sets", Enum: l2.enum, Check: round(l2, false), Show: l2.show},
		{Name: "tags2", Rule: "two layers of containers with custom tags, representative values, 4 option sets", Enum: x2.enum, Check: round(x2, false), Show: x2.show},
		{Name: "sizes", Rule: "slices, arrays, maps, strings, structs and nestings of every size up to the bound, of the first also sizes around powers of two", Enum: func(emit func([]byte) bool) {
			for n := 0; n <= tier(tr, 140, 600); n++ {
				for k := 0; k < sizedKinds; k++ {
					if !emit([]byte{byte(k), byte(n >> 8), byte(n)}) {
						return
					}
				}
			}
			for _, n := range around(tier(tr, 8, 10), tier(tr, 12, 15)) {
				for _, k := range []int{0, 1, 2, 3, 4, 10} {
					if !emit([]byte{byte(k), byte(n >> 8), byte(n)}) {
						return
					}
				}
			}
		}, Check: func(t *core.T, c []byte) {
			v := sizedVal(int(c[0]), int(c[1])<<8|int(c[2]))
			if v.IsValid() {
				for _, o := range roundOptions[:2] {
					roundTrip(t, v, o)
				}
			}
		}, Show: func(c []byte) string { return fmt.Sprintf("kind %d size %d", c[0], int(c[1])<<8|int(c[2])) }},
		{Name: "three", Rule: "types nested 3 deep, representative values, 4 option sets", Enum: l3.enum, Check: round(l3, false), Show: l3.show},
	}
}
