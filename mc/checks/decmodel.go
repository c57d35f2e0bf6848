package checks

import (
	"encoding"
	"encoding/json"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/alxarch/njson"

	"verif/mc/model"
)

var (
	tUnNode = reflect.TypeOf((*njson.Unmarshaler)(nil)).Elem()
	tUnJSON = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
	tUnText = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
)

// decModel decodes into v (addressable) by the rules of the property.
// encFail: an error has to be reported; encSkip: the result is not specified, an error is allowed.
type decModel struct {
	tag    string
	onto   bool // the target holds a value
	nonstd bool // used something encoding/json does differently
}

func (m *decModel) members(t reflect.Type) map[string]mfield {
	em := encModel{}
	em.o.Tag = m.tag
	names := map[string]mfield{}
	for _, f := range em.members(t) {
		names[f.name] = f
	}
	m.nonstd = m.nonstd || em.nonstd
	return names
}

// overwritten tells if decoding into a value of type t never leaves anything of the old value.
func overwritten(t reflect.Type) bool {
	if reflect.PtrTo(t).Implements(tUnNode) || reflect.PtrTo(t).Implements(tUnJSON) || reflect.PtrTo(t).Implements(tUnText) {
		return false
	}
	switch t.Kind() {
	case reflect.Struct, reflect.Map, reflect.Ptr, reflect.Interface:
		return false
	case reflect.Slice, reflect.Array:
		return t.Elem() != t && overwritten(t.Elem())
	}
	return true
}

func worst(a, b encErr) encErr {
	if a == encFail || b == encFail {
		return encFail
	}
	if a == encSkip || b == encSkip {
		return encSkip
	}
	if a == encMay || b == encMay {
		return encMay
	}
	return encOK
}

func (m *decModel) custom(p reflect.Value, v *model.Val) (encErr, bool) {
	t := p.Type()
	fail := func(err error) (encErr, bool) {
		if err != nil {
			return encFail, true
		}
		return encOK, true
	}
	switch {
	case t.Implements(tUnNode):
		m.nonstd = true
		d := new(njson.Document)
		n, _, err := d.Parse(v.Compact())
		if err != nil {
			return encSkip, true
		}
		return fail(p.Interface().(njson.Unmarshaler).UnmarshalNodeJSON(n))
	case t.Implements(tUnJSON):
		return fail(p.Interface().(json.Unmarshaler).UnmarshalJSON([]byte(v.Compact())))
	case t.Implements(tUnText):
		if v.Kind == model.Null {
			m.nonstd = true
			return encMay, true
		}
		if v.Kind != model.String {
			return encFail, true
		}
		return fail(p.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(model.Unescape(v.Raw))))
	}
	return 0, false
}

func (m *decModel) dec(t reflect.Value, v *model.Val) encErr {
	typ := t.Type()
	if typ.Kind() != reflect.Ptr && typ.Kind() != reflect.Interface {
		if e, done := m.custom(t.Addr(), v); done {
			return e
		}
	}
	null := v.Kind == model.Null
	if null {
		switch typ.Kind() {
		case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.String, reflect.Array, reflect.Struct:
			if m.onto || !t.IsZero() {
				m.nonstd = true
			}
		}
	}
	switch typ.Kind() {
	case reflect.Ptr:
		if null {
			t.Set(reflect.Zero(typ))
			return m.typeOK(typ)
		}
		if t.IsNil() {
			t.Set(reflect.New(typ.Elem()).Convert(typ))
		} else {
			// decode into a copy of the target: the model must not change what it shares
			p := reflect.New(typ.Elem())
			p.Elem().Set(t.Elem())
			t.Set(p.Convert(typ))
		}
		return m.dec(t.Elem(), v)
	case reflect.Interface:
		if typ.NumMethod() != 0 {
			return encSkip
		}
		if !t.IsNil() {
			if k := t.Elem().Kind(); k == reflect.Ptr {
				return encSkip
			}
		}
		x, e := generic(v)
		if e == encOK {
			if x == nil {
				t.Set(reflect.Zero(typ))
			} else {
				t.Set(reflect.ValueOf(x))
			}
		}
		return e
	case reflect.Bool:
		switch {
		case null:
			t.SetBool(false)
		case v.Kind == model.Bool:
			t.SetBool(v.Raw == "true")
		default:
			return encFail
		}
		return encOK
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if null {
			t.Set(reflect.Zero(typ))
			return encOK
		}
		if v.Kind != model.Number {
			return encFail
		}
		x := intWant(v.Raw)
		if x == nil {
			return encFail
		}
		if !model.IsNumber(v.Raw, false) {
			m.nonstd = true
			return encSkip
		}
		res := encOK
		if strings.ContainsAny(v.Raw, "eE") {
			m.nonstd = true
			res = encMay
		} else if strings.Contains(v.Raw, ".") {
			m.nonstd = true
		}
		if typ.Kind() >= reflect.Uint {
			if !x.IsUint64() || t.OverflowUint(x.Uint64()) {
				return encFail
			}
			t.SetUint(x.Uint64())
			if v.Raw[0] == '-' { // -0
				m.nonstd = true
				res = encMay
			}
			return res
		}
		if !x.IsInt64() || t.OverflowInt(x.Int64()) {
			return encFail
		}
		t.SetInt(x.Int64())
		return res
	case reflect.Float32, reflect.Float64:
		if null {
			t.SetFloat(0)
			return encOK
		}
		if v.Kind != model.Number || !model.IsNumber(v.Raw, true) {
			return encFail
		}
		if !model.IsNumber(v.Raw, false) {
			return encSkip
		}
		f, _ := strconv.ParseFloat(v.Raw, typ.Bits())
		if math.IsInf(f, 0) {
			return encFail
		}
		t.SetFloat(f)
		return encOK
	case reflect.String:
		if null {
			t.SetString("")
			return encOK
		}
		if v.Kind != model.String {
			return encFail
		}
		t.SetString(model.Unescape(v.Raw))
		if !model.ValidBody(v.Raw) || model.ValidUTF8(v.Raw) != v.Raw {
			m.nonstd = true
			return encSkip
		}
		return encOK
	case reflect.Slice:
		if typ.Elem().Kind() == reflect.Uint8 {
			m.nonstd = true
		}
		if null {
			t.Set(reflect.Zero(typ)) // an empty slice is as good
			return m.typeOK(typ)
		}
		if v.Kind != model.Array {
			return worst(encFail, m.typeOK(typ))
		}
		res := m.typeOK(typ)
		if t.Cap() > 0 && !overwritten(typ.Elem()) {
			res = encSkip
		}
		if t.Cap() > 0 {
			m.nonstd = true // elements that are null keep what the old slice held
		}
		s := reflect.MakeSlice(typ, len(v.Vals), len(v.Vals))
		for i, x := range v.Vals {
			res = worst(res, m.dec(s.Index(i), x))
		}
		t.Set(s)
		return res
	case reflect.Array:
		if null {
			t.Set(reflect.Zero(typ))
			return m.typeOK(typ)
		}
		if v.Kind != model.Array {
			return worst(encFail, m.typeOK(typ))
		}
		res := m.typeOK(typ)
		for i, x := range v.Vals {
			if i < typ.Len() {
				res = worst(res, m.dec(t.Index(i), x))
			}
		}
		for i := len(v.Vals); i < typ.Len(); i++ {
			t.Index(i).Set(reflect.Zero(typ.Elem()))
		}
		return res
	case reflect.Map:
		res := m.typeOK(typ)
		if null {
			t.Set(reflect.Zero(typ))
			return res
		}
		if v.Kind != model.Object {
			return worst(encFail, res)
		}
		n := reflect.MakeMap(typ)
		for _, k := range t.MapKeys() {
			n.SetMapIndex(k, t.MapIndex(k))
		}
		for i, x := range v.Vals {
			k := reflect.New(typ.Key()).Elem()
			raw := v.Keys[i]
			key := model.Unescape(raw)
			if !model.ValidBody(raw) || model.ValidUTF8(raw) != raw {
				m.nonstd = true
				res = worst(res, encSkip)
			}
			switch {
			case reflect.PtrTo(typ.Key()).Implements(tUnText):
				if err := k.Addr().Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(key)); err != nil {
					res = encFail
					continue
				}
			case typ.Key().Kind() == reflect.String:
				k.SetString(key)
			default:
				return encSkip
			}
			e := reflect.New(typ.Elem()).Elem()
			res = worst(res, m.dec(e, x))
			n.SetMapIndex(k, e)
		}
		t.Set(n)
		return res
	case reflect.Struct:
		names := m.members(typ)
		res := m.typeOK(typ)
		if null {
			t.Set(reflect.Zero(typ))
			return res
		}
		if v.Kind != model.Object {
			return worst(encFail, res)
		}
		for i, x := range v.Vals {
			raw := v.Keys[i]
			key := model.Unescape(raw)
			if !model.ValidBody(raw) || model.ValidUTF8(raw) != raw {
				m.nonstd = true
				res = worst(res, encSkip)
			}
			if f, ok := names[key]; ok {
				fv := t
				ok := true
				for k, i := range f.index {
					if k > 0 && fv.Kind() == reflect.Ptr {
						if !fv.CanSet() {
							// an unexported embedded pointer
							if ok = !fv.IsNil(); !ok {
								res = encFail
								break
							}
							fv = fv.Elem()
							fv = fv.Field(i)
							continue
						}
						p := reflect.New(fv.Type().Elem())
						if !fv.IsNil() {
							p.Elem().Set(fv.Elem())
						}
						fv.Set(p)
						fv = fv.Elem()
					}
					fv = fv.Field(i)
				}
				if ok {
					res = worst(res, m.dec(fv, x))
				}
				continue
			}
			for n := range names {
				if strings.EqualFold(n, key) {
					m.nonstd = true
				}
			}
		}
		return res
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer:
		if null {
			return encMay
		}
		return encFail
	}
	return encSkip
}

// generic is what an empty interface gets.
func generic(v *model.Val) (interface{}, encErr) {
	switch v.Kind {
	case model.Null:
		return nil, encOK
	case model.Bool:
		return v.Raw == "true", encOK
	case model.Number:
		if !model.IsNumber(v.Raw, true) {
			return nil, encFail
		}
		if !model.IsNumber(v.Raw, false) {
			return nil, encSkip
		}
		f, _ := strconv.ParseFloat(v.Raw, 64)
		if math.IsInf(f, 0) {
			return nil, encSkip // C14
		}
		return f, encOK
	case model.String:
		if !model.ValidBody(v.Raw) || model.ValidUTF8(v.Raw) != v.Raw {
			return nil, encSkip
		}
		return model.Unescape(v.Raw), encOK
	case model.Array:
		res := encOK
		out := make([]interface{}, len(v.Vals))
		for i, x := range v.Vals {
			y, e := generic(x)
			out[i] = y
			res = worst(res, e)
		}
		return out, res
	}
	res := encOK
	out := map[string]interface{}{}
	for i, x := range v.Vals {
		y, e := generic(x)
		k := v.Keys[i]
		if !model.ValidBody(k) || model.ValidUTF8(k) != k {
			res = worst(res, encSkip)
		}
		k = model.Unescape(k)
		if _, dup := out[k]; dup {
			res = worst(res, encSkip)
		}
		out[k] = y
		res = worst(res, e)
	}
	return out, res
}

// typeOK: types with parts that cannot be decoded may be refused as a whole.
func (m *decModel) typeOK(t reflect.Type) encErr {
	seen := map[reflect.Type]bool{}
	em := encModel{}
	em.o.Tag = m.tag
	var f func(t reflect.Type) encErr
	f = func(t reflect.Type) encErr {
		if seen[t] {
			return encOK
		}
		seen[t] = true
		if t.Kind() != reflect.Interface {
			if p := reflect.PtrTo(t); p.Implements(tUnNode) || p.Implements(tUnJSON) || p.Implements(tUnText) {
				return encOK
			}
		}
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array:
			return f(t.Elem())
		case reflect.Map:
			if t.Key().Kind() != reflect.String && !reflect.PtrTo(t.Key()).Implements(tUnText) {
				return encMay
			}
			return f(t.Elem())
		case reflect.Struct:
			for _, x := range em.members(t) {
				if e := f(x.typ); e != encOK {
					return e
				}
			}
		case reflect.Interface:
			if t.NumMethod() != 0 {
				return encMay
			}
		case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer, reflect.Uintptr:
			return encMay
		}
		return encOK
	}
	return f(t)
}

// sameVal compares decoded values; a nil slice that is wanted may also be empty.
func sameVal(got, want reflect.Value) bool {
	if got.Type() != want.Type() {
		return false
	}
	switch want.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(got.Float()) == math.Float64bits(want.Float())
	case reflect.Ptr:
		if got.IsNil() || want.IsNil() {
			return got.IsNil() == want.IsNil()
		}
		if got.Pointer() == want.Pointer() {
			return true
		}
		return sameVal(got.Elem(), want.Elem())
	case reflect.Interface:
		if got.IsNil() || want.IsNil() {
			return got.IsNil() == want.IsNil()
		}
		return sameVal(got.Elem(), want.Elem())
	case reflect.Slice:
		if want.IsNil() {
			return got.Len() == 0
		}
		if got.IsNil() || got.Len() != want.Len() {
			return false
		}
		for i := 0; i < want.Len(); i++ {
			if !sameVal(got.Index(i), want.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < want.Len(); i++ {
			if !sameVal(got.Index(i), want.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if got.IsNil() != want.IsNil() || got.Len() != want.Len() {
			return false
		}
		for _, k := range want.MapKeys() {
			x := got.MapIndex(k)
			if !x.IsValid() || !sameVal(x, want.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < want.NumField(); i++ {
			if !sameVal(got.Field(i), want.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return got.Bool() == want.Bool()
	case reflect.String:
		return got.String() == want.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return got.Int() == want.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return got.Uint() == want.Uint()
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return got.Pointer() == want.Pointer()
	}
	return reflect.DeepEqual(got.Interface(), want.Interface())
}
