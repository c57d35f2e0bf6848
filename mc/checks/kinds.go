package checks

// C27: kinds, masks of kinds and the errors that name them.

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"unicode"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C27", Level: "exhaustive", Families: c27,
		Assumptions: []string{
			"bits of a mask that are no kind may be listed or not; the six kinds are checked for all 256 masks",
			"an error names a kind by the kind's String, the kind met before the kinds wanted; the rest of the wording is free",
			"an error whose kind met is among those wanted (a value of the right kind that is not usable) need not list the kinds wanted",
		}})
}

var sixKinds = []njson.Type{njson.TypeString, njson.TypeObject, njson.TypeArray, njson.TypeNumber, njson.TypeBoolean, njson.TypeNull}
var kindNames = map[string]njson.Type{"String": njson.TypeString, "Object": njson.TypeObject, "Array": njson.TypeArray, "Number": njson.TypeNumber, "Boolean": njson.TypeBoolean, "Null": njson.TypeNull, "AnyValue": njson.TypeAnyValue, "InvalidToken": njson.TypeInvalid}

// namedKinds lists the kinds a text names, in order.
func namedKinds(s string) (out []njson.Type) {
	for _, w := range strings.FieldsFunc(s, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) }) {
		if k, ok := kindNames[w]; ok {
			out = append(out, k)
		}
	}
	return
}

const realKinds = njson.TypeString | njson.TypeObject | njson.TypeArray | njson.TypeNumber | njson.TypeBoolean | njson.TypeNull

// errNames fails unless the error names met first and then exactly the wanted kinds (those in may may be missing).
func errNames(t *core.T, what string, err error, met, want, may njson.Type) {
	if err == nil {
		t.Failf("%s: no error", what)
	}
	names := namedKinds(err.Error())
	if len(names) == 0 || names[0] != met {
		t.Failf("%s: error %q does not name %v as the kind met", what, err, met)
	}
	var named njson.Type
	for _, k := range names[1:] {
		named |= k
	}
	if met&want != 0 {
		if named&^(want|may|met) != 0 {
			t.Failf("%s: error %q names kinds that are not wanted (%v)", what, err, want)
		}
		return
	}
	if want &= realKinds; named&realKinds&^may != want&^may {
		t.Failf("%s: error %q, wanted were %v", what, err, want)
	}
}

func checkMask(t *core.T, c []byte) {
	m := njson.Type(c[0])
	t.StateBytes(c)
	t.Steps(1)
	var want []njson.Type
	for _, k := range sixKinds {
		if m&k != 0 {
			want = append(want, k)
		}
	}
	list := m.Types()
	seen := map[njson.Type]int{}
	for _, k := range list {
		seen[k]++
		if k&realKinds != k && (k&realKinds != 0 || m&k != k || k == 0) {
			t.Failf("mask %d lists %d, which it does not contain", m, k)
		}
		if k == 0 || k&(k-1) != 0 || m&k == 0 || seen[k] > 1 {
			t.Failf("mask %d lists %v", m, list)
		}
	}
	for _, k := range want {
		if seen[k] != 1 {
			t.Failf("mask %d does not list %v: %v", m, k, list)
		}
	}
	if m.IsValue() != (len(want) > 0) {
		t.Failf("mask %d with kinds %v: IsValue is %v", m, want, m.IsValue())
	}
	// the list handed out is the caller's
	for i := range list {
		list[i] = 0
	}
	if again := m.Types(); len(again) != len(list) || len(again) > 0 && again[0] == 0 {
		t.Failf("mask %d lists %v after the first list was changed", m, again)
	}
	s := m.String()
	var named njson.Type
	for _, k := range namedKinds(s) {
		if named&k != 0 {
			t.Failf("mask %d is called %q", m, s)
		}
		named |= k
	}
	if named != m&realKinds {
		t.Failf("mask %d is called %q", m, s)
	}
	if len(want) == 1 && m == want[0] && s != nameOf(m) {
		t.Failf("kind %d is called %q", m, s)
	}
	if m&realKinds == m {
		for o := 0; o < 256; o++ {
			if x := njson.Type(o); x&realKinds == x && x != m && x.String() == s {
				t.Failf("masks %d and %d are both called %q", m, x, s)
			}
		}
	}
	if njson.TypeInvalid != 0 || njson.TypeAnyValue != realKinds {
		t.Failf("TypeInvalid is %d, TypeAnyValue is %d", njson.TypeInvalid, njson.TypeAnyValue)
	}
}

func nameOf(k njson.Type) string {
	for s, x := range kindNames {
		if x == k {
			return s
		}
	}
	return "?"
}

// nodeMakers makes a node of every kind in every way.
type nodeMaker struct {
	name string
	kind njson.Type
	make func(d *njson.Document) njson.Node
}

func nodeMakers() []nodeMaker {
	parse := func(s string) func(d *njson.Document) njson.Node {
		return func(d *njson.Document) njson.Node {
			n, _, err := d.Parse(s)
			if err != nil {
				panic(err)
			}
			return n
		}
	}
	set := func(s string, f func(n njson.Node)) func(d *njson.Document) njson.Node {
		return func(d *njson.Document) njson.Node {
			n := parse(s)(d)
			f(n)
			return n
		}
	}
	out := []nodeMaker{
		{"Null", njson.TypeNull, func(d *njson.Document) njson.Node { return d.Null() }},
		{"False", njson.TypeBoolean, func(d *njson.Document) njson.Node { return d.False() }},
		{"True", njson.TypeBoolean, func(d *njson.Document) njson.Node { return d.True() }},
		{"Text", njson.TypeString, func(d *njson.Document) njson.Node { return d.Text("x\n") }},
		{"TextRaw", njson.TypeString, func(d *njson.Document) njson.Node { return d.TextRaw("x") }},
		{"TextHTML", njson.TypeString, func(d *njson.Document) njson.Node { return d.TextHTML("<") }},
		{"Object", njson.TypeObject, func(d *njson.Document) njson.Node { return d.Object() }},
		{"Array", njson.TypeArray, func(d *njson.Document) njson.Node { return d.Array() }},
		{"Number", njson.TypeNumber, func(d *njson.Document) njson.Node { return d.Number(1.5) }},
		{"no node", njson.TypeInvalid, func(d *njson.Document) njson.Node { return njson.Node{} }},
		{"unknown id", njson.TypeInvalid, func(d *njson.Document) njson.Node { return d.Node(1 << 20) }},
		{"missing key", njson.TypeInvalid, func(d *njson.Document) njson.Node { return d.Object().Get("x") }},
		{"missing element", njson.TypeInvalid, func(d *njson.Document) njson.Node { return d.Array().Index(3) }},
		{"stale", njson.TypeInvalid, func(d *njson.Document) njson.Node { n := d.Object(); d.Reset(); return n }},
		{"element of a stale one", njson.TypeInvalid, func(d *njson.Document) njson.Node { n := parse(`[1]`)(d); d.Reset(); return n.Index(0) }},
		{"document before parsing", njson.TypeInvalid, func(d *njson.Document) njson.Node { return (&njson.Document{}).Root() }},
	}
	for _, s := range []string{`null`, `true`, `false`, `0`, `-1.5e3`, `""`, `"a\n"`, `"0"`, `"null"`, `[]`, `[1]`, `{}`, `{"a":1}`} {
		v, _, _ := model.Parse(s)
		k := typeOf(v.Kind)
		out = append(out, nodeMaker{"parsed " + s, k, parse(s)},
			nodeMaker{"element " + s, k, func(d *njson.Document) njson.Node { return parse(`[null,` + s + `]`)(d).Index(1) }},
			nodeMaker{"member " + s, k, func(d *njson.Document) njson.Node { return parse(`{"k":` + s + `}`)(d).Get("k") }},
			nodeMaker{"copied " + s, k, func(d *njson.Document) njson.Node {
				other := &njson.Document{}
				a := d.Array()
				a.Append(parse(s)(other))
				return a.Index(0)
			}},
			nodeMaker{"SetInt " + s, njson.TypeNumber, set(s, func(n njson.Node) { n.SetInt(-3) })},
			nodeMaker{"SetUint " + s, njson.TypeNumber, set(s, func(n njson.Node) { n.SetUint(3) })},
			nodeMaker{"SetFloat " + s, njson.TypeNumber, set(s, func(n njson.Node) { n.SetFloat(2.5) })},
			nodeMaker{"SetString " + s, njson.TypeString, set(s, func(n njson.Node) { n.SetString("1") })},
			nodeMaker{"SetStringHTML " + s, njson.TypeString, set(s, func(n njson.Node) { n.SetStringHTML("<") })},
			nodeMaker{"SetStringRaw " + s, njson.TypeString, set(s, func(n njson.Node) { n.SetStringRaw("r") })},
			nodeMaker{"SetTrue " + s, njson.TypeBoolean, set(s, func(n njson.Node) { n.SetTrue() })},
			nodeMaker{"SetFalse " + s, njson.TypeBoolean, set(s, func(n njson.Node) { n.SetFalse() })},
			nodeMaker{"SetNull " + s, njson.TypeNull, set(s, func(n njson.Node) { n.SetNull() })},
			nodeMaker{"SetInt and SetNull " + s, njson.TypeNull, set(s, func(n njson.Node) { n.SetInt(1); n.SetNull() })})
	}
	return out
}

type nopUnmarshaler struct{}

func (nopUnmarshaler) UnmarshalJSON([]byte) error { return nil }
func (nopUnmarshaler) UnmarshalText([]byte) error { return nil }

// checkNode: one way to make a node against every wanted mask and every reading operation.
func checkNode(t *core.T, c []byte) {
	t.StateBytes(c)
	mk := nodeMakers()[c[0]]
	d := &njson.Document{}
	n := mk.make(d)
	if n.Type() != mk.kind {
		t.Failf("%s: kind %v, want %v", mk.name, n.Type(), mk.kind)
	}
	if raw, k := n.Data(); k != mk.kind || raw != n.Raw() {
		t.Failf("%s: Data gives kind %v, want %v", mk.name, k, mk.kind)
	}
	if len(mk.kind.Types()) > 1 {
		t.Failf("%s: kinds %v", mk.name, mk.kind.Types())
	}
	for w := 0; w < 256; w++ {
		t.Steps(1)
		want := njson.Type(w)
		errNames(t, fmt.Sprintf("%s, TypeError(%d)", mk.name, w), n.TypeError(want), mk.kind, want, 0)
	}
	if _, ok := n.ToBool(); ok != (mk.kind == njson.TypeBoolean) {
		t.Failf("%s: ToBool %v", mk.name, ok)
	}
	// (strings that read as numbers convert: C12)
	if _, ok := n.ToFloat(); ok != (mk.kind == njson.TypeNumber) && mk.kind != njson.TypeString {
		t.Failf("%s: ToFloat %v", mk.name, ok)
	}
	if _, ok := n.ToInt(); ok && mk.kind != njson.TypeNumber && mk.kind != njson.TypeString {
		t.Failf("%s: ToInt %v", mk.name, ok)
	}
	if _, ok := n.ToUint(); ok && mk.kind != njson.TypeNumber && mk.kind != njson.TypeString {
		t.Failf("%s: ToUint %v", mk.name, ok)
	}
	if _, ok := n.ToInterface(); ok != (mk.kind != njson.TypeInvalid) {
		t.Failf("%s: ToInterface %v", mk.name, ok)
	}
	err := n.WrapUnmarshalText(nopUnmarshaler{})
	if mk.kind == njson.TypeString {
		if err != nil {
			t.Failf("%s: WrapUnmarshalText: %v", mk.name, err)
		}
	} else {
		errNames(t, mk.name+", WrapUnmarshalText", err, mk.kind, njson.TypeString, 0)
	}
	err = n.WrapUnmarshalJSON(nopUnmarshaler{})
	_, err2 := n.AppendJSON(nil)
	if mk.kind != njson.TypeInvalid {
		if err != nil || err2 != nil {
			t.Failf("%s: WrapUnmarshalJSON: %v, AppendJSON: %v", mk.name, err, err2)
		}
	} else {
		errNames(t, mk.name+", WrapUnmarshalJSON", err, mk.kind, njson.TypeAnyValue, 0)
		errNames(t, mk.name+", AppendJSON", err2, mk.kind, njson.TypeAnyValue, 0)
	}
}

// targets of decoding and the kinds they want (null is always allowed to be listed: it is accepted by most).
type kindTarget struct {
	typ  reflect.Type
	want njson.Type
}

var kindTargets = func() []kindTarget {
	num, str, arr, obj := njson.TypeNumber, njson.TypeString, njson.TypeArray, njson.TypeObject
	var out []kindTarget
	for _, x := range []interface{}{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0)} {
		out = append(out, kindTarget{reflect.TypeOf(x), num})
	}
	return append(out,
		kindTarget{reflect.TypeOf(""), str},
		kindTarget{reflect.TypeOf(false), njson.TypeBoolean},
		kindTarget{reflect.TypeOf([]int(nil)), arr},
		kindTarget{reflect.TypeOf([]interface{}(nil)), arr},
		kindTarget{reflect.TypeOf([2]string{}), arr},
		kindTarget{reflect.TypeOf([0]string{}), arr},
		kindTarget{reflect.TypeOf(map[string]int(nil)), obj},
		kindTarget{reflect.TypeOf(map[string]interface{}(nil)), obj},
		kindTarget{reflect.TypeOf(struct{ A int }{}), obj},
		kindTarget{reflect.TypeOf(struct{}{}), obj},
		kindTarget{reflect.TypeOf(kindText("")), str},
	)
}()

type kindText string

func (k *kindText) UnmarshalText(b []byte) error { *k = kindText(b); return nil }

var kindTexts = []string{`"x"`, `""`, `"1"`, `"true"`, `{}`, `{"A":1}`, `[]`, `[1]`, `["x","y"]`, `1`, `0`, `true`, `false`, `null`}

// kindPlaces puts a value of type typ somewhere and the text with it.
var kindPlaces = []struct {
	name string
	typ  func(t reflect.Type) reflect.Type
	text string
}{
	{"top", func(t reflect.Type) reflect.Type { return t }, "%s"},
	{"pointer", reflect.PtrTo, "%s"},
	{"pointer to pointer", func(t reflect.Type) reflect.Type { return reflect.PtrTo(reflect.PtrTo(t)) }, "%s"},
	{"slice", reflect.SliceOf, "[%s]"},
	{"array", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(1, t) }, "[%s]"},
	{"map", func(t reflect.Type) reflect.Type { return reflect.MapOf(reflect.TypeOf(""), t) }, `{"k":%s}`},
	{"field", func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `json:"f"`}})
	}, `{"f":%s}`},
	{"field of slice element", func(t reflect.Type) reflect.Type {
		return reflect.SliceOf(reflect.StructOf([]reflect.StructField{{Name: "G", Type: reflect.TypeOf(0)}, {Name: "F", Type: reflect.PtrTo(t)}}))
	}, `[{"G":1,"F":%s}]`},
}

// checkKindDecode: target, place and value.
func checkKindDecode(t *core.T, c []byte) {
	t.StateBytes(c)
	tg, pl, text := kindTargets[c[0]], kindPlaces[c[1]], kindTexts[c[2]]
	v, _, _ := model.Parse(text)
	met := typeOf(v.Kind)
	if met == tg.want {
		return // other reasons to fail: C17
	}
	typ := pl.typ(tg.typ)
	src := fmt.Sprintf(pl.text, text)
	for entry := 0; entry < 4; entry++ {
		t.Steps(1)
		p := reflect.New(typ)
		var err error
		switch entry {
		case 0:
			err = unjson.Unmarshal([]byte(src), p.Interface())
		case 1:
			d := &njson.Document{}
			n, _, perr := d.Parse(src)
			if perr != nil {
				panic(perr)
			}
			err = unjson.UnmarshalFromNode(n, p.Interface())
		case 2:
			err = unjson.NewLineDecoder(strings.NewReader(src + "\n")).Decode(p.Interface())
		case 3:
			if p.Type().Implements(reflect.TypeOf((*interface{ UnmarshalText([]byte) error })(nil)).Elem()) && met == njson.TypeNull {
				continue
			}
			dec, derr := unjson.NewTypeDecoder(p.Type(), "json")
			if derr != nil {
				t.Failf("no decoder for %v: %v", typ, derr)
			}
			d := &njson.Document{}
			n, _, _ := d.Parse(src)
			err = dec.Decode(p.Interface(), n)
		}
		if met == njson.TypeNull {
			if err != nil && !strings.Contains(fmt.Sprint(tg.typ), "kindText") {
				t.Failf("%s into %v: %v", src, typ, err)
			}
			if err == nil {
				continue
			}
		}
		errNames(t, fmt.Sprintf("%s into %v (entry %d)", src, typ, entry), err, met, tg.want, njson.TypeNull)
	}
}

// checkKindsOf: every value of a document has the kind its text shows.
func checkKindsOf(t *core.T, c []byte) {
	t.StateBytes(c)
	v, tail, merr := model.Parse(string(c))
	d := &njson.Document{}
	n, _, err := d.Parse(string(c))
	if merr != nil || strings.Trim(tail, jsonSpace) != "" {
		if merr != nil && merr.Incomplete {
			var ue njson.UnexpectedEOF
			if err != nil && errors.As(err, &ue) && njson.Type(ue) != 0 {
				one := njson.Type(ue)
				if one != njson.TypeAnyValue && one&(one-1) != 0 || one&realKinds != one {
					t.Failf("%q ends while scanning %d", c, one)
				}
			}
		}
		if pe, ok := err.(*njson.ParseError); ok {
			k := pe.Type()
			if k != njson.TypeAnyValue && (k&(k-1) != 0 || k&realKinds != k) {
				t.Failf("%q fails while scanning %d", c, k)
			}
			if names := namedKinds(pe.Error()); k != 0 && (len(names) == 0 || names[len(names)-1] != k) {
				t.Failf("%q: error %q of kind %v", c, pe, k)
			}
		}
		return
	}
	if err != nil {
		t.Failf("%q: %v", c, err)
	}
	var walk func(n njson.Node, v *model.Val)
	walk = func(n njson.Node, v *model.Val) {
		t.Steps(1)
		if n.Type() != typeOf(v.Kind) {
			t.Failf("%q: kind %v of %s", c, n.Type(), v.Compact())
		}
		for it, i := n.Values(), 0; it.Next(); i++ {
			walk(it.Value(), v.Vals[i])
		}
	}
	walk(n, v)
}

func c27(tr string) []core.Family {
	makers := nodeMakers()
	return []core.Family{
		{Name: "masks", Rule: "all 256 masks", Enum: func(emit func([]byte) bool) {
			for i := 0; i < 256; i++ {
				emit([]byte{byte(i)})
			}
		}, Check: checkMask, Show: func(c []byte) string { return fmt.Sprintf("mask %d", c[0]) }},
		{Name: "nodes", Rule: fmt.Sprintf("nodes made in %d ways (parsed, constructed, set, copied, missing, stale) x all 256 masks of wanted kinds, and every operation that asks for a kind", len(makers)), Enum: func(emit func([]byte) bool) {
			for i := range makers {
				emit([]byte{byte(i)})
			}
		}, Check: checkNode, Show: func(c []byte) string { return makers[c[0]].name }},
		{Name: "decoding", Rule: fmt.Sprintf("%d targets at %d places x %d values x 4 ways to decode", len(kindTargets), len(kindPlaces), len(kindTexts)), Enum: func(emit func([]byte) bool) {
			for i := range kindTargets {
				for j := range kindPlaces {
					for k := range kindTexts {
						emit([]byte{byte(i), byte(j), byte(k)})
					}
				}
			}
		}, Check: checkKindDecode, Show: func(c []byte) string {
			return fmt.Sprintf("%s into %v in %s", kindTexts[c[2]], kindTargets[c[0]].typ, kindPlaces[c[1]].name)
		}},
		{Name: "documents", Rule: fmt.Sprintf("all words of up to %d tokens that are live in the grammar, and their extensions by one token", tier(tr, 7, 9)), Enum: func(emit func([]byte) bool) {
			words([]string{"[", "]", "{", "}", `"a":`, ",", `"s"`, "-1", "true", "null"}, tier(tr, 7, 9), 1, emit)
		}, Check: checkKindsOf},
	}
}
