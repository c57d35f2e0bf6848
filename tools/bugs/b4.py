exec(open('/verif/tools/bugs/common.py').read())
U=('github.com/alxarch/njson/unjson',)
UJ=('encoding/json','github.com/alxarch/njson/unjson')
bug("C16-compact","C16","a type whose MarshalJSON gives invalid JSON without an error","the output of a type's own MarshalJSON is copied without being looked at, so invalid JSON is passed on instead of an error",
[("unjson/encode.go",r'''		buf := bytes.NewBuffer(out)
		if err = json.Compact(buf, b); err == nil {
			return buf.Bytes(), nil
		}
''',r'''		buf := bytes.NewBuffer(out)
		if err = json.Compact(buf, b); err == nil {
			return buf.Bytes(), nil
		} else if len(b) > 0 {
			return append(out, b...), nil
		}
''')],r'''
package main

import (
	"fmt"
	"os"

	"github.com/alxarch/njson/unjson"
)

type bad string

func (b bad) MarshalJSON() ([]byte, error) { return []byte(b), nil }

func main() {
	if b, err := unjson.Marshal([]bad{`{`}); err == nil {
		fmt.Printf("%s\n", b)
		os.Exit(1)
	}
}
''')
bug("C16-room","C16","a value that marshals itself through the Appender interface and fails, after other output","a slice whose element fails to encode after at least 8 elements gives the elements before it and no error",
[("unjson/encode.go",r'''			out, err = e.encoder.encode(out, v.Index(i))
			if err != nil {
				return out, err
			}
		}
	}
	out = append(out, delimEndArray)''',r'''			out, err = e.encoder.encode(out, v.Index(i))
			if err != nil && i < 8 {
				return out, err
			}
		}
	}
	out = append(out, delimEndArray)''')],prog(r'''	xs := make([]float64, 10)
	xs[9] = math.NaN()
	if b, err := unjson.Marshal(xs); err == nil {
		fail(string(b))
	}''',U+('math',)))
bug("C17-array","C17","an array that already holds values and a JSON array with fewer elements","the first array element that is missing in the text keeps its old value",
[("unjson/decode.go",r'''				for ; i < dec.size; i++ {
					el := v.Index(i)''',r'''				for i++; i < dec.size; i++ {
					el := v.Index(i)''')],prog(r'''	a := [3]int{1, 2, 3}
	err := unjson.UnmarshalFromString(`[7]`, &a)
	if err != nil || a != [3]int{7, 0, 0} {
		fail(a, err)
	}''',U))
bug("C17-mapval","C17","a map of structs where a later member leaves out a field an earlier one had","map values are decoded over the value of the member before",
[("unjson/decode.go",r'''			val.Set(d.zeroValue)
			err = d.decoder.decode(val, iter.Value())''',r'''			if k := val.Kind(); k != reflect.Struct || iter.Index() == 0 {
				val.Set(d.zeroValue)
			}
			err = d.decoder.decode(val, iter.Value())''')],prog(r'''	m := map[string]struct{ A, B int }{}
	err := unjson.UnmarshalFromString(`{"x":{"A":1},"y":{"B":2}}`, &m)
	if err != nil || m["y"].A != 0 {
		fail(m, err)
	}''',U))
bug("C17-ptr","C17","a non-nil pointer to a struct in the target, with a text that mentions only some fields","a pointer that is already set is replaced when the target is a struct, so what its struct held and the text does not mention is lost, also for other holders of the pointer",
[("unjson/decode.go",r'''		if v.IsNil() {
			v.Set(reflect.New(d.typ))
		}
		return d.decoder.decode(v.Elem(), n)''',r'''		if v.IsNil() || d.typ.Kind() == reflect.Struct {
			v.Set(reflect.New(d.typ))
		}
		return d.decoder.decode(v.Elem(), n)''')],prog(r'''	type in struct{ A, B int }
	x := struct{ P *in }{&in{1, 2}}
	p := x.P
	err := unjson.UnmarshalFromString(`{"P":{"B":3}}`, &x)
	if err != nil || *x.P != (in{1, 3}) || x.P != p {
		fail(*x.P, err)
	}''',U))
bug("C18-cachetag","C18","a cache with a tag of its own used for decoding","the decoders of a cache ignore its tag, so what its encoders wrote under custom names does not come back",
[("unjson/cache.go",r'''	dec, err = NewTypeDecoder(typ, c.Tag)''',r'''	dec, err = NewTypeDecoder(typ, defaultTag)''')],prog(r'''	type T struct {
		A int `x:"a"`
	}
	var c unjson.Cache
	c.Tag = "x"
	e, _ := c.Encoder(reflect.TypeOf(T{}))
	d, _ := c.Decoder(reflect.TypeOf(&T{}))
	b, _ := e.Encode(nil, T{5})
	doc := njson.Document{}
	n, _, _ := doc.Parse(string(b))
	var t T
	err := d.Decode(&t, n)
	if err != nil || t.A != 5 {
		fail(string(b), t, err)
	}''',('reflect','github.com/alxarch/njson')+U))
bug("C18-nilmap","C18","an empty map that is not nil, in a field or at the top","an empty map is written as null and comes back nil",
[("unjson/encode.go",r'''	if v.IsNil() {
		return append(out, strNull...), nil
	}
	out = append(out, delimBeginObject)''',r'''	if v.Len() == 0 {
		return append(out, strNull...), nil
	}
	out = append(out, delimBeginObject)''')],prog(r'''	var m map[string]map[string]int
	b, err := unjson.Marshal(map[string]map[string]int{"a": {}})
	if err == nil {
		err = unjson.Unmarshal(b, &m)
	}
	if err != nil || m["a"] == nil {
		fail(string(b), m, err)
	}''',U))
bug("C19-realloc","C19","an embedded pointer and two of its members in one text","decoding allocates the embedded struct again for every member, losing the ones before",
[("unjson/codec.go",r'''						if field.IsNil() {
''',r'''						if field.IsNil() || field.CanSet() && len(fc.index) > 3 {
''')],prog(r'''	type A struct{ X, Y int }
	type B struct{ *A }
	type C struct{ *B }
	var c C
	err := unjson.UnmarshalFromString(`{"X":1,"Y":2}`, &c)
	if err != nil || c.X != 1 || c.Y != 2 {
		fail(c.B.A, err)
	}''',U))
bug("C19-dash","C19","a field whose tag is '-,'","a field named '-' by its tag is taken for a skipped one",
[("unjson/options.go",r'''			name = name[:i]
''',r'''			name = name[:i]
			if name == "-" {
				name = ""
			}
''')],prog(r'''	type T struct {
		A int `json:"-,"`
	}
	b, err := unjson.Marshal(T{5})
	if err != nil || string(b) != `{"-":5}` {
		fail(string(b), err)
	}''',U))
bug("C20-hintarr","C20","a hint on an array of strings","hints do not reach the elements of arrays",
[("unjson/encode.go",r"""	codecs[cacheKey{typ, hints}] = ae
	enc, err := codecs.encoder(typ.Elem(), options, hints)""",r"""	codecs[cacheKey{typ, hints}] = ae
	enc, err := codecs.encoder(typ.Elem(), options, hints&hintOmitempty)""")],prog(r"""	type T struct {
		A [1]string `json:"a,html"`
	}
	b, err := unjson.Marshal(T{[1]string{"<"}})
	if err != nil || len(b) < 14 {
		fail(string(b), err)
	}""",U))
bug("C20-nan","C20","a NaN in a field marked omitempty, with NaN allowed","a NaN counts as empty",
[("unjson/omit.go",r'''	return v.Float() == 0
''',r'''	f := v.Float()
	return !(f > 0) && !(f < 0)
''')],prog(r'''	type T struct {
		A float64 `json:"a,omitempty"`
	}
	e, _ := unjson.NewTypeEncoder(reflect.TypeOf(T{}), unjson.Options{AllowNaN: true})
	b, err := e.Encode(nil, T{math.NaN()})
	if err != nil || string(b) != `{"a":NaN}` {
		fail(string(b), err)
	}''',U+('math','reflect')))
bug("C20-method","C20","an emptiness method with a result of another type or more results","a method of the right name is used without looking at its result",
[("unjson/omit.go",r'''		if f.NumIn() == 1 && f.NumOut() == 1 && f.Out(0).Kind() == reflect.Bool {''',r'''		if f.NumIn() == 1 && f.NumOut() > 0 && f.Out(0).Kind() == reflect.Bool {''')],r'''
package main

import (
	"fmt"
	"os"

	"github.com/alxarch/njson/unjson"
)

type W int

func (W) Omit() (bool, error) { return true, nil }

type T struct {
	A W `json:"a,omitempty"`
}

func main() {
	b, err := unjson.Marshal(T{5})
	if err != nil || string(b) != `{"a":5}` {
		fmt.Println(string(b), err)
		os.Exit(1)
	}
}
''')
