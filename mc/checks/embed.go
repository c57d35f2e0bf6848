package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"

	"verif/mc/core"
	"verif/mc/model"
)

func init() {
	core.Register(&core.Property{ID: "C19", Level: "model_checking", Families: c19, Quick: 300, Thorough: 800,
		Assumptions: []string{"Ties between fields of one name at one depth are broken as the standard library does. Member names differ in more than case. Tag names with characters the standard library does not take are only required to be used alike in both directions."}})
}

func emb(name string, t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag), Anonymous: true}
}

var (
	tInt  = reflect.TypeOf(0)
	tBool = reflect.TypeOf(false)
)

func tg(key, s string) string {
	if s == "" {
		return ""
	}
	return key + ":" + fmt.Sprintf("%q", s)
}

// leaves are structs without embedded fields.
func leaves(key string) [][]reflect.StructField {
	s := func(fs ...reflect.StructField) []reflect.StructField { return fs }
	f := func(n string, t reflect.Type, tag string) reflect.StructField { return fld(n, t, tg(key, tag)) }
	return [][]reflect.StructField{
		s(),
		s(f("A", tInt, "")),
		s(f("B", tString, "")),
		s(f("A", tInt, ""), f("B", tString, "")),
		s(f("A", tInt, "A")),
		s(f("A", tInt, "t1")),
		s(f("A", tInt, "B")),
		s(f("B", tString, "A")),
		s(f("A", tInt, "B"), f("B", tString, "A")),
		s(f("A", tInt, "-")),
		s(f("A", tInt, "-"), f("C", tString, "A")),
		s(f("A", tInt, ",omitempty"), f("B", tInt, "A,omitempty")),
		s(f("C", reflect.PtrTo(tInt), "A"), f("B", tString, "B")),
		s(f("A", reflect.SliceOf(tInt), "")),
	}
}

// embedLevel builds structs: own fields and up to two embedded ones.
func embedLevel(key string, own [][]reflect.StructField, inner []reflect.Type, tags []string, twice []reflect.Type) (out typeSet) {
	for _, o := range own {
		mk := func(es ...reflect.StructField) {
			out = append(out, structOf(append(append([]reflect.StructField{}, o...), es...)...))
		}
		for _, t := range inner {
			for _, tag := range tags {
				mk(emb("E", t, tg(key, tag)))
				mk(emb("E", reflect.PtrTo(t), tg(key, tag)))
			}
		}
		for i, t := range twice {
			for _, u := range twice[i:] {
				mk(emb("E", t, ""), emb("F", u, ""))
				mk(emb("E", reflect.PtrTo(t), ""), emb("F", u, ""))
				mk(emb("E", t, ""), emb("F", reflect.PtrTo(u), ""))
				mk(emb("E", reflect.PtrTo(t), ""), emb("F", reflect.PtrTo(u), ""))
			}
		}
	}
	return
}

func structsOf(l [][]reflect.StructField) (out []reflect.Type) {
	for _, fs := range l {
		out = append(out, structOf(fs...))
	}
	return
}

// fillStruct gives every leaf a value of its own; mask says which embedded pointers are set. It returns how many there are.
func fillStruct(v reflect.Value, mask int, zero bool) int {
	n, id := 0, 0
	var f func(v reflect.Value, depth int)
	f = func(v reflect.Value, depth int) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath != "" && !v.Type().Field(i).Anonymous {
					continue
				}
				f(v.Field(i), depth+1)
			}
		case reflect.Ptr:
			if v.Type().Elem().Kind() == reflect.Struct {
				if depth > 6 {
					return
				}
				n++
				if mask>>(uint(n)-1)&1 == 1 && v.CanSet() {
					v.Set(reflect.New(v.Type().Elem()))
					f(v.Elem(), depth+1)
				}
				return
			}
			if id++; !zero && v.CanSet() {
				v.Set(reflect.New(v.Type().Elem()))
				f(v.Elem(), depth+1)
			}
		case reflect.Int:
			if id++; !zero && v.CanSet() {
				v.SetInt(int64(id))
			}
		case reflect.String:
			if id++; !zero && v.CanSet() {
				v.SetString(fmt.Sprint("s", id))
			}
		case reflect.Slice:
			if id++; !zero && v.CanSet() {
				v.Set(reflect.MakeSlice(v.Type(), 1, 1))
				f(v.Index(0), depth+1)
			}
		}
	}
	f(v, 0)
	return n
}

// embedVals lists values: every subset of embedded pointers, with and without values in the leaves.
func embedVals(t reflect.Type) (out []reflect.Value) {
	for mask := 0; ; mask++ {
		v := reflect.New(t).Elem()
		n := fillStruct(v, math.MaxInt64, false)
		if n > 5 {
			n = 5
		}
		if mask >= 1<<uint(n) {
			return
		}
		for _, zero := range []bool{false, true} {
			v := reflect.New(t).Elem()
			m := mask
			if mask == 1<<uint(n)-1 {
				m = math.MaxInt64
			}
			fillStruct(v, m, zero)
			out = append(out, v)
		}
	}
}

var memberNames = []string{"A", "B", "C", "E", "F", "t1", "e"}

// embedTexts lists objects with members of any of the names, in both orders, with right and wrong values.
func embedTexts(t reflect.Type) (out []string) {
	vals := []string{`7`, `"x"`, `null`, `[1]`, `{"A":8,"B":"y"}`, `{}`}
	out = append(out, `{}`, `null`, `[]`, `{"x":1}`)
	for _, n := range memberNames {
		for _, v := range vals {
			out = append(out, fmt.Sprintf(`{"%s":%s}`, n, v))
		}
	}
	for i, n := range memberNames {
		for _, m := range memberNames[i+1:] {
			out = append(out, fmt.Sprintf(`{"%s":7,"%s":"x"}`, n, m), fmt.Sprintf(`{"%s":"x","%s":7}`, n, m), fmt.Sprintf(`{"%s":9,"u":1,"%s":8}`, m, n), fmt.Sprintf(`{"%s":{"A":1},"%s":{"B":"z"}}`, m, n))
		}
	}
	return append(out, `{"A":1,"B":"b","C":"c","E":{},"F":{},"t1":3}`, `{"A":1,"A":2}`, `{"E":{"A":1},"E":{"B":"q"}}`)
}

// embedType checks one struct type completely.
func embedType(t *core.T, typ reflect.Type, vals []reflect.Value, texts []string, o unjson.Options) {
	t.State(typ.String())
	enc, err := unjson.NewTypeEncoder(typ, o)
	if err != nil {
		t.Failf("no encoder for %s: %v", typ, err)
		return
	}
	penc, err := unjson.NewTypeEncoder(reflect.PtrTo(typ), o)
	if err != nil {
		t.Failf("no encoder for *%s: %v", typ, err)
		return
	}
	dec, err := unjson.NewTypeDecoder(reflect.PtrTo(typ), o.Tag)
	if err != nil {
		t.Failf("no decoder for %s: %v", typ, err)
		return
	}
	for _, v := range vals {
		m := encModel{o: o}
		want, res := m.enc(cloneVal(v), false, false)
		if res != encOK {
			continue
		}
		t.Steps(1)
		for _, ptr := range []bool{false, true} {
			e, x := enc, v.Interface()
			if ptr {
				e, x = penc, cloneVal(v).Addr().Interface()
			}
			t.Runs(1)
			b, err := e.Encode(nil, x)
			if err != nil {
				t.Failf("%s is not encoded: %v", showVal(v), err)
				continue
			}
			pv, rest, perr := model.Parse(string(b))
			if perr != nil || rest != "" || !json.Valid(b) {
				t.Failf("%s is encoded as %q", showVal(v), b)
				continue
			}
			if d := dupName(pv); d != "" {
				t.Failf("%s is encoded as %s: the name %q is there twice", showVal(v), b, d)
			}
			if s := want.match(pv, "it"); s != "" {
				t.Failf("%s is encoded as %s: %s", showVal(v), b, s)
			}
			// what is written is read back into the same fields
			q := reflect.New(typ)
			d := new(njson.Document)
			n, _, _ := d.Parse(string(b))
			mq := reflect.New(typ).Elem()
			md := decModel{tag: o.Tag}
			wres := md.dec(mq, pv)
			err = dec.Decode(q.Interface(), n)
			if wres == encOK && (err != nil || !sameVal(q.Elem(), mq)) {
				t.Failf("%s, encoded as %s, decodes to %s, %v, want %s", showVal(v), b, showVal(q.Elem()), err, showVal(mq))
			}
			if wres == encFail && err == nil {
				t.Failf("%s decodes to %s, want an error", b, showVal(q.Elem()))
			}
		}
		if o.Tag == "" && !o.OmitEmpty && !m.nonstd {
			if b, err, ok := stdMarshal(v.Interface()); ok && err == nil {
				pv, _, _ := model.Parse(string(b))
				if s := want.loose().match(pv, "it"); s != "" {
					t.Failf("model of %s differs from encoding/json's %s: %s", showVal(v), b, s)
				}
			}
		}
	}
	starts := []reflect.Value{reflect.Zero(typ)}
	if len(vals) > 1 {
		starts = append(starts, vals[len(vals)-2])
	}
	if len(vals) > 4 {
		starts = append(starts, vals[2])
	}
	for _, s := range texts {
		pv, _, perr := model.Parse(s)
		if perr != nil {
			panic(s)
		}
		for k, start := range starts {
			m := decModel{tag: o.Tag, onto: k > 0}
			want := deepClone(start)
			res := m.dec(want, pv)
			got := deepClone(start)
			d := new(njson.Document)
			n, _, err := d.Parse(s)
			if err != nil {
				t.Failf("%s does not parse: %v", s, err)
				continue
			}
			t.Runs(1)
			t.Steps(1)
			err = dec.Decode(got.Addr().Interface(), n)
			switch {
			case res == encOK && err != nil:
				t.Failf("%s into %s fails: %v, want %s", s, showVal(start), err, showVal(want))
			case res == encFail && err == nil:
				t.Failf("%s into %s gives %s, want an error", s, showVal(start), showVal(got))
			case res == encOK && !sameVal(got, want):
				t.Failf("%s into %s gives %s, want %s", s, showVal(start), showVal(got), showVal(want))
			}
			if o.Tag == "" && !m.nonstd && (res == encOK || res == encFail) {
				g := deepClone(start)
				err := json.Unmarshal([]byte(s), g.Addr().Interface())
				if (err != nil) != (res == encFail) || err == nil && !sameVal(g, want) {
					t.Failf("model of %s into %s: fails %v, %s; encoding/json: %v, %s", s, showVal(start), res == encFail, showVal(want), err, showVal(g))
				}
			}
		}
	}
}

func dupName(v *model.Val) string {
	if v.Kind == model.Object {
		seen := map[string]bool{}
		for _, k := range v.Keys {
			k = model.Unescape(k)
			if seen[k] {
				return k
			}
			seen[k] = true
		}
	}
	for _, x := range v.Vals {
		if d := dupName(x); d != "" {
			return d
		}
	}
	return ""
}

// Unexported, recursive and other embedded types that reflection cannot build.
type zemb struct {
	A int
	b int
}
type zemb2 struct {
	zemb
	B string `json:"B"`
}
type zint int
type ZInt int
type zstr string
type ZS1 struct {
	zemb
	C string
}
type ZS2 struct {
	*zemb
	C string
}
type ZS3 struct {
	zemb2
	A int `json:"t1"`
}
type ZS4 struct {
	*zemb2
	B int
}
type ZS5 struct {
	zint
	ZInt
	zstr
	A int
}
type ZS6 struct {
	*ZInt
	B string
}
type ZS7 struct {
	zemb `json:"e"`
	C    string
}
type ZS8 struct {
	zemb `json:"-"`
	C    string
}
type ZRec struct {
	*ZRec
	A int
}
type ZRec2 struct {
	A int
	*ZRec3
}
type ZRec3 struct {
	B string
	*ZRec2
}
type ZTwo struct {
	ZJV
	ZJP
	A int
}
type zany interface{}
type ZIfc struct {
	zany
	A int
}
type ZAny interface{}
type ZIfc2 struct {
	ZAny
	A int
}
type ZDiaL struct{ ZDia }
type ZDiaR struct{ ZDia }
type ZDia struct{ A int }
type ZDiaTop struct {
	ZDiaL
	*ZDiaR
	B string
}
type ZMapEmb map[string]int
type ZSlcEmb []int
type ZMixEmb struct {
	ZMapEmb
	ZSlcEmb `json:"C,omitempty"`
	A       int
}
type zptr struct {
	*ZDia
	B string
}
type ZPtrIn struct {
	zptr
	C int
}
type ZPtrIn2 struct {
	*zptr
	C int
}
type ZShadow struct {
	ZDia
	A string
}
type ZShadowSkip struct {
	ZDia
	A string `json:"-"`
}
type ZShadowUnexp struct {
	ZDia
	a string
}
type ZTagWin struct {
	ZDia
	ZTagA
}
type ZTagA struct {
	X string `json:"A"`
}
type ZDeep struct {
	ZDeep1
	A string `json:",omitempty"`
}
type ZDeep1 struct {
	*ZDeep2
	B int
}
type ZDeep2 struct {
	ZDeep3
	A int
}
type ZDeep3 struct {
	*ZDia
	C string
	B string
}

func statics() (out []reflect.Type, vals map[reflect.Type][]reflect.Value) {
	vals = map[reflect.Type][]reflect.Value{}
	zi := ZInt(4)
	for _, l := range [][]interface{}{
		{ZS1{}, ZS1{zemb{1, 2}, "c"}},
		{ZS2{}, ZS2{&zemb{1, 2}, "c"}},
		{ZS3{}, ZS3{zemb2{zemb{1, 2}, "b"}, 3}},
		{ZS4{}, ZS4{&zemb2{zemb{1, 2}, "b"}, 3}},
		{ZS5{}, ZS5{1, 2, "z", 3}},
		{ZS6{}, ZS6{&zi, "b"}},
		{ZS7{}, ZS7{zemb{1, 2}, "c"}},
		{ZS8{}, ZS8{zemb{1, 2}, "c"}},
		{ZRec{}, ZRec{nil, 1}, ZRec{&ZRec{nil, 2}, 1}},
		{ZRec2{}, ZRec2{1, nil}, ZRec2{1, &ZRec3{"b", &ZRec2{2, nil}}}},
		{ZRec3{}, ZRec3{"b", &ZRec2{2, &ZRec3{"c", nil}}}},
		{ZTwo{}, ZTwo{ZJV{1}, ZJP{2}, 3}},
		{ZIfc{}, ZIfc{1, 2}},
		{ZIfc2{}, ZIfc2{nil, 2}, ZIfc2{"x", 2}},
		{ZDiaTop{}, ZDiaTop{ZDiaL{ZDia{1}}, &ZDiaR{ZDia{2}}, "b"}},
		{ZMixEmb{}, ZMixEmb{ZMapEmb{"k": 1}, ZSlcEmb{1}, 2}},
		{ZPtrIn{}, ZPtrIn{zptr{&ZDia{1}, "b"}, 2}},
		{ZPtrIn2{}, ZPtrIn2{&zptr{nil, "b"}, 2}, ZPtrIn2{&zptr{&ZDia{1}, "b"}, 2}},
		{ZShadow{}, ZShadow{ZDia{1}, "a"}},
		{ZShadowSkip{}, ZShadowSkip{ZDia{1}, "a"}},
		{ZShadowUnexp{}, ZShadowUnexp{ZDia{1}, "a"}},
		{ZTagWin{}, ZTagWin{ZDia{1}, ZTagA{"a"}}},
		{ZDeep{}, ZDeep{ZDeep1{nil, 1}, ""}, ZDeep{ZDeep1{&ZDeep2{ZDeep3{nil, "c", "b"}, 2}, 1}, ""}, ZDeep{ZDeep1{&ZDeep2{ZDeep3{&ZDia{5}, "c", "b"}, 2}, 1}, "a"}},
	} {
		t := reflect.TypeOf(l[0])
		out = append(out, t)
		for _, x := range l {
			vals[t] = append(vals[t], cloneVal(reflect.ValueOf(x)))
		}
	}
	return
}

// Tag names.
var tagNames = func() (out []string) {
	for c := 0x20; c < 0x7f; c++ {
		out = append(out, string(rune(c)), "a"+string(rune(c)), string(rune(c))+"a")
	}
	return append(out, "é", "世界", "a.b/c", "x y", "-", "--", "ü!", "😀", "a\tb", "a\nb", "\x00", "a\u2028", "\xff", "ｘ", "٣", "ǅ", "a,b", ",", ",omitempty,", "n,omitempty", "n,omitemptyx", "n, omitempty", ",OMITEMPTY", "n,html,8bit", "n,x,omitempty", "-,", "-,omitempty", "", "n,,omitempty", ",,omitempty", "n,html,,omitempty", "n,,", ",,", "n,omitempty,", "n,xomitempty", ",omitempt", "n,x,xomitempty")
}()

func goodName(s string) bool {
	for _, c := range s {
		if strings.ContainsRune("\"\\'`,", c) || c < ' ' || c > 0x7e && !strings.ContainsRune("é世界üｘ٣ǅ", c) {
			return false
		}
	}
	return true
}

// tagName: one field with any tag name next to one without.
func tagName(t *core.T, i int, k byte) {
	tag := tagNames[i]
	key := []string{"json", "x"}[k]
	o := unjson.Options{}
	if key != "json" {
		o.Tag = key
	}
	full := reflect.StructTag(fmt.Sprintf(`other:"zz" %s:%q`, key, tag))
	typ := structOf(reflect.StructField{Name: "Fld", Type: tInt, Tag: full}, fld("Other", tString, ""))
	t.State(string(full))
	want := "Fld"
	omit := false
	judged := true
	base := strings.Split(tag, ",")
	if base[0] != "" {
		want = base[0]
		judged = goodName(base[0])
	}
	for _, p := range base[1:] {
		omit = omit || p == "omitempty"
	}
	skip := tag == "-"
	var cache unjson.Cache
	cache.Options = o
	enc, err := cache.Encoder(typ)
	if err != nil {
		t.Failf("no encoder: %v", err)
		return
	}
	dec, err := cache.Decoder(reflect.PtrTo(typ))
	if err != nil {
		t.Failf("no decoder: %v", err)
		return
	}
	for _, n := range []int{0, 5} {
		v := reflect.New(typ).Elem()
		v.Field(0).SetInt(int64(n))
		v.Field(1).SetString("o")
		t.Runs(1)
		b, err := enc.Encode(nil, v.Interface())
		if err != nil || !json.Valid(b) {
			t.Failf("tag %q: encoded as %q, %v", tag, b, err)
			continue
		}
		pv, _, _ := model.Parse(string(b))
		if skip || omit && n == 0 {
			if len(pv.Keys) != 1 || model.Unescape(pv.Keys[0]) != "Other" {
				t.Failf("tag %q, value %d: encoded as %s, want the field left out", tag, n, b)
			}
		} else {
			if len(pv.Keys) != 2 || pv.Keys[0] != "Other" && pv.Keys[1] != "Other" {
				t.Failf("tag %q: encoded as %s", tag, b)
				continue
			}
			if judged && member(pv, want) == nil {
				t.Failf("tag %q: encoded as %s, want a member %q", tag, b, want)
			}
		}
		q := reflect.New(typ)
		d := new(njson.Document)
		node, _, _ := d.Parse(string(b))
		err = dec.Decode(q.Interface(), node)
		w := int64(n)
		if skip {
			w = 0
		}
		if err != nil || q.Elem().Field(0).Int() != w || q.Elem().Field(1).String() != "o" {
			t.Failf("tag %q: %s decodes to %s, %v", tag, b, showVal(q.Elem()), err)
		}
	}
	// '-' and the Go name are not read when they are not the member name
	q := reflect.New(typ)
	d := new(njson.Document)
	s := `{"Fld":1,"-":2,"zz":3}`
	node, _, _ := d.Parse(s)
	err = dec.Decode(q.Interface(), node)
	w := int64(0)
	switch {
	case skip:
	case want == "Fld":
		w = 1
	case want == "-":
		w = 2
	}
	if judged && (err != nil || q.Elem().Field(0).Int() != w) {
		t.Failf("tag %q: %s decodes to %s, %v, want %d", tag, s, showVal(q.Elem()), err, w)
	}
}

func c19(tr string) []core.Family {
	st, stv := statics()
	sts := typeSet(st)
	own := func(key string) [][]reflect.StructField {
		l := leaves(key)
		return [][]reflect.StructField{l[0], l[1], l[2], l[6], l[9]}
	}
	l0 := typeSet(structsOf(leaves("json")))
	tags := []string{"", "t1", "A", "-", ",omitempty"}
	l1 := embedLevel("json", own("json"), l0, tags, l0)
	// for the next level: one embedded (untagged) and some with two
	var in []reflect.Type
	for i, t := range embedLevel("json", own("json")[:4], l0, []string{""}, nil) {
		if tr == "thorough" || i%2 == 0 || i%7 == 0 {
			in = append(in, t)
		}
	}
	two := embedLevel("json", own("json")[:2], nil, nil, l0[1:9])
	for i, t := range two {
		if tr == "thorough" || i%3 == 0 {
			in = append(in, t)
		}
	}
	l2 := embedLevel("json", own("json")[:4], in, []string{""}, nil)
	l2 = append(l2, embedLevel("json", own("json")[:2], nil, nil, append(append([]reflect.Type{}, l0[1], l0[4], l0[7]), in[1], in[3], in[9], in[20]))...)
	var in3 []reflect.Type
	for i, t := range l2 {
		if i%tier(tr, 11, 2) == 0 {
			in3 = append(in3, t)
		}
	}
	l3 := embedLevel("json", own("json")[:tier(tr, 2, 4)], in3, []string{""}, nil)
	x1 := embedLevel("x", own("x"), structsOf(leaves("x")), tags, structsOf(leaves("x"))[:8])
	check := func(ts typeSet, opts ...unjson.Options) func(t *core.T, c []byte) {
		return func(t *core.T, c []byte) {
			typ := ts.at(c)
			vals := stv[typ]
			if vals == nil {
				vals = embedVals(typ)
			}
			for _, o := range opts {
				embedType(t, typ, vals, embedTexts(typ), o)
			}
		}
	}
	return []core.Family{
		{Name: "static", Rule: "declared types: unexported, recursive, diamond, shadowing, non-struct and interface embedding", Enum: sts.enum, Check: check(sts, unjson.Options{}, unjson.Options{OmitEmpty: true}, unjson.Options{Tag: "x"}), Show: sts.show},
		{Name: "tags", Rule: "every printable character alone and at either end of a tag name, unicode names, tag option lists, default and custom tag key", Enum: func(emit func([]byte) bool) {
			for i := range tagNames {
				for k := byte(0); k < 2; k++ {
					if !emit([]byte{byte(i >> 8), byte(i), k}) {
						return
					}
				}
			}
		}, Check: func(t *core.T, c []byte) { tagName(t, int(c[0])<<8|int(c[1]), c[2]) }, Show: func(c []byte) string {
			return fmt.Sprintf("tag %q", tagNames[int(c[0])<<8|int(c[1])])
		}},
		{Name: "leaf", Rule: "structs without embedding", Enum: l0.enum, Check: check(l0, unjson.Options{}, unjson.Options{OmitEmpty: true}), Show: l0.show},
		{Name: "one", Rule: "own fields x one or two embedded structs (value or pointer, every tag form), every subset of nil pointers, objects with every pair of names", Enum: l1.enum, Check: check(l1, unjson.Options{}), Show: l1.show},
		{Name: "custom", Rule: "the same with a custom tag key", Enum: x1.enum, Check: check(x1, unjson.Options{Tag: "x"}), Show: x1.show},
		{Name: "two", Rule: "two levels of embedding", Enum: l2.enum, Check: check(l2, unjson.Options{}), Show: l2.show},
		{Name: "three", Rule: "three levels of embedding", Enum: l3.enum, Check: check(l3, unjson.Options{}), Show: l3.show},
	}
}
