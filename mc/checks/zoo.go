package checks

import (
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/alxarch/njson"
)

var errZoo = errors.New("zoo: refused")

func zooInt(s string) (int, error) {
	n, err := strconv.Atoi(strings.TrimSpace(s))
	if err != nil || n > 99 || n < -99 {
		return 0, errZoo
	}
	return n, nil
}

// Marshals itself as JSON by value.
type ZJV struct{ N int }

func (z ZJV) MarshalJSON() ([]byte, error) {
	if z.N < 0 {
		return nil, errZoo
	}
	return []byte(fmt.Sprintf(" [ %d, {\"zjv\" : \"<x>\"} ]\n", z.N)), nil
}
func (z *ZJV) UnmarshalJSON(b []byte) error {
	var x []interface{}
	if string(b) == "null" {
		z.N = -7
		return nil
	}
	if err := json.Unmarshal(b, &x); err != nil || len(x) < 1 {
		return errZoo
	}
	f, ok := x[0].(float64)
	if !ok {
		return errZoo
	}
	z.N = int(f)
	return nil
}

// Marshals itself as JSON by pointer.
type ZJP struct{ N int }

func (z *ZJP) MarshalJSON() ([]byte, error) {
	if z.N < 0 {
		return nil, errZoo
	}
	return []byte(fmt.Sprintf(`"zjp%d"`, z.N)), nil
}
func (z *ZJP) UnmarshalJSON(b []byte) (err error) {
	s := strings.Trim(string(b), `"`)
	if len(s) < 3 || s[:3] != "zjp" {
		return errZoo
	}
	z.N, err = zooInt(s[3:])
	return
}

// Marshals itself as text by value, an integer kind.
type ZTV int

func (z ZTV) MarshalText() ([]byte, error) {
	if z < 0 {
		return nil, errZoo
	}
	return []byte(fmt.Sprintf("t<%d>\"", int(z))), nil
}
func (z *ZTV) UnmarshalText(b []byte) error {
	s := string(b)
	if !strings.HasPrefix(s, "t<") || !strings.HasSuffix(s, ">\"") {
		return errZoo
	}
	n, err := zooInt(s[2 : len(s)-2])
	*z = ZTV(n)
	return err
}

// Marshals itself as text by pointer.
type ZTP struct{ S string }

func (z *ZTP) MarshalText() ([]byte, error) {
	if z.S == "bad" {
		return nil, errZoo
	}
	return []byte("tp:" + z.S), nil
}
func (z *ZTP) UnmarshalText(b []byte) error {
	if !strings.HasPrefix(string(b), "tp:") {
		return errZoo
	}
	z.S = string(b[3:])
	return nil
}

// Appends itself by value.
type ZAV int

func (z ZAV) AppendJSON(b []byte) ([]byte, error) {
	if z < 0 {
		return b, errZoo
	}
	return append(b, fmt.Sprintf(`{"zav":%d}`, int(z))...), nil
}
func (z *ZAV) UnmarshalNodeJSON(n njson.Node) error {
	f, ok := n.Get("zav").ToInt()
	if !ok || f < 0 {
		return errZoo
	}
	*z = ZAV(f)
	return nil
}

// Appends itself by pointer.
type ZAP struct{ N int }

func (z *ZAP) AppendJSON(b []byte) ([]byte, error) {
	if z.N < 0 {
		return b, errZoo
	}
	return append(b, fmt.Sprintf(`[%d]`, z.N)...), nil
}
func (z *ZAP) UnmarshalNodeJSON(n njson.Node) error {
	f, ok := n.Index(0).ToInt()
	if !ok {
		return errZoo
	}
	z.N = int(f)
	return nil
}

// Kinds that marshal themselves.
type ZJS string

func (z ZJS) MarshalJSON() ([]byte, error) { return json.Marshal(map[string]string{"zjs": string(z)}) }
func (z *ZJS) UnmarshalJSON(b []byte) error {
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*z = ZJS(m["zjs"])
	return nil
}

type ZJL []int

func (z ZJL) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"len":%d}`, len(z))), nil }
func (z *ZJL) UnmarshalJSON(b []byte) error {
	var m struct{ Len int }
	if err := json.Unmarshal(b, &m); err != nil || m.Len < 0 || m.Len > 9 {
		return errZoo
	}
	*z = make(ZJL, m.Len)
	return nil
}

type ZJM map[string]int

func (z ZJM) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`["map",%d]`, len(z))), nil }

type ZTM map[string]int

func (z ZTM) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf(`map/%d`, len(z))), nil }

// JSON wins over text.
type ZJT struct{ N int }

func (z ZJT) MarshalJSON() ([]byte, error) { return []byte(strconv.Itoa(z.N)), nil }
func (z ZJT) MarshalText() ([]byte, error) { return []byte("text"), nil }
func (z *ZJT) UnmarshalJSON(b []byte) (err error) {
	z.N, err = zooInt(string(b))
	return
}
func (z *ZJT) UnmarshalText(b []byte) error { return errZoo }

// Text by value, JSON by pointer only.
type ZTVJP struct{ N int }

func (z ZTVJP) MarshalText() ([]byte, error) { return []byte("text"), nil }
func (z *ZTVJP) MarshalJSON() ([]byte, error) {
	return []byte(`{"json":` + strconv.Itoa(z.N) + `}`), nil
}

// Appender wins over JSON.
type ZAJ struct{ N int }

func (z ZAJ) AppendJSON(b []byte) ([]byte, error) { return append(b, `"append"`...), nil }
func (z ZAJ) MarshalJSON() ([]byte, error)        { return []byte(`"json"`), nil }

// Only marshals itself, decodes by its kind.
type ZJonly struct {
	N int    `json:"n"`
	S string `json:",omitempty"`
}

func (z ZJonly) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`{"n":%d,"S":%q}`, z.N, z.S)), nil
}

// Only unmarshals itself, encodes by its kind.
type ZUonly struct {
	N int `json:"n"`
}

func (z *ZUonly) UnmarshalJSON(b []byte) (err error) {
	z.N, err = zooInt(string(b))
	return
}

// Gives invalid JSON.
type ZBad string

func (z ZBad) MarshalJSON() ([]byte, error) { return []byte(z), nil }

// Promoted methods.
type ZEmbV struct {
	ZJV
	X int
}
type ZEmbP struct {
	*ZJP
	X int
}

// Recursive types.
type ZList struct {
	V    int    `json:"v"`
	Next *ZList `json:"next,omitempty"`
}
type ZTree struct {
	K []ZTree          `json:"k"`
	M map[string]ZTree `json:"m"`
	P *ZTree           `json:"p"`
	A [1]*ZTree        `json:"a"`
}
type ZSlice []ZSlice
type ZMap map[string]ZMap
type ZPtr *ZPtr2
type ZPtr2 struct{ P ZPtr }
type ZMut struct {
	B *ZMutB
	S []ZMutB
}
type ZMutB struct {
	A *ZMut
	M map[string]*ZMut
}

// Named kinds.
type ZStr string
type ZI8 int8
type ZU8 uint8
type ZF32 float32
type ZBool bool
type ZInts []int
type ZArr [2]ZStr
type ZObj map[ZStr]ZI8

// Plain structs.
type ZPoint struct {
	X, Y float64
	name string
}
type ZTags struct {
	A int         `json:"a"`
	B string      `json:"b,omitempty"`
	C []string    `json:",omitempty"`
	D *ZTags      `json:"d,omitempty"`
	E interface{} `json:"e"`
	F bool        `json:"-"`
	G uint8       `json:"-,"`
	H float32     `yaml:"h"`
	I int         `json:"I.x/y"`
	J int         `json:"j j"`
	k int
}

type zooEntry struct {
	vals  []interface{}
	texts []string
	std   bool // encoding/json agrees on encoding
	dec   bool // meaningful to decode
}

func ip(n int) *int { return &n }

var zooTypes = []zooEntry{
	{[]interface{}{ZJV{}, ZJV{5}, ZJV{-1}}, []string{`[4]`, ` [ 6 , "x" ] `, `[]`, `["x"]`}, true, true},
	{[]interface{}{ZJP{}, ZJP{5}, ZJP{-1}}, []string{`"zjp4"`, `"zjp"`, `"other"`}, true, true},
	{[]interface{}{ZTV(0), ZTV(5), ZTV(-1)}, []string{`"t<4>\""`, `"\u0074<5>\u0022"`, `"t<x>"`}, true, true},
	{[]interface{}{ZTP{}, ZTP{"x\n<"}, ZTP{"bad"}}, []string{`"tp:"`, `"tp:a\nb"`, `"x"`}, true, true},
	{[]interface{}{ZAV(0), ZAV(5), ZAV(-1)}, []string{`{"zav":3}`, `{"zav":-1}`, `{"x":1}`}, false, true},
	{[]interface{}{ZAP{}, ZAP{5}, ZAP{-1}}, []string{`[3]`, `["3"]`}, false, true},
	{[]interface{}{ZJS(""), ZJS("a\"<")}, []string{`{"zjs":"q"}`, `{"zjs":1}`}, true, true},
	{[]interface{}{ZJL(nil), ZJL{}, ZJL{1, 2}}, []string{`{"len":2}`, `{"len":-1}`}, true, true},
	{[]interface{}{ZJM(nil), ZJM{}, ZJM{"a": 1}}, nil, true, false},
	{[]interface{}{ZTM(nil), ZTM{}, ZTM{"a": 1}}, nil, true, false},
	{[]interface{}{ZJT{}, ZJT{3}}, []string{`7`, `"7"`}, true, true},
	{[]interface{}{ZTVJP{}, ZTVJP{3}}, nil, true, false},
	{[]interface{}{ZAJ{}, ZAJ{3}}, nil, false, false},
	{[]interface{}{ZJonly{}, ZJonly{3, "x"}}, []string{`{"n":7}`, `{"S":"q","n":1}`}, true, true},
	{[]interface{}{ZUonly{}, ZUonly{3}}, []string{`7`, `"x"`}, true, true},
	{[]interface{}{ZBad(`{}`), ZBad(`[1,2] `), ZBad(`{`), ZBad(``), ZBad(`1 2`), ZBad(`tru`)}, nil, true, false},
	{[]interface{}{ZEmbV{}, ZEmbV{ZJV{4}, 1}}, []string{`[9]`, `{}`}, true, true},
	{[]interface{}{ZEmbP{&ZJP{4}, 1}}, nil, true, false},
	{[]interface{}{time.Time{}, time.Unix(1600000000, 5).UTC()}, []string{`"2006-01-02T15:04:05Z"`, `"nope"`}, true, true},
	{[]interface{}{json.RawMessage(`{"a": [1,2]}`), json.RawMessage(nil), json.RawMessage(`5`)}, []string{`{"a":1}`, `"x"`, `[1,2]`}, true, true},
	{[]interface{}{*big.NewInt(0), *new(big.Int).Exp(big.NewInt(7), big.NewInt(60), nil)}, []string{`123456789012345678901234567890`, `"x"`}, true, true},
	{[]interface{}{net.IP(nil), net.IPv4(1, 2, 3, 4)}, []string{`"10.0.0.1"`, `"x"`}, true, true},
	{[]interface{}{ZList{}, ZList{1, &ZList{2, &ZList{3, nil}}}}, []string{`{"v":1,"next":{"v":2,"next":null}}`, `{"next":{"next":{"v":"x"}}}`}, true, true},
	{[]interface{}{ZTree{K: []ZTree{}}, ZTree{K: []ZTree{{K: []ZTree{}}}, M: map[string]ZTree{"q": {K: []ZTree{}, P: &ZTree{K: []ZTree{}}}}, P: &ZTree{K: []ZTree{}}}}, []string{`{"k":[{},{"m":{"a":{"p":{}}}}],"a":[{"k":[]}]}`, `{"k":[{"m":{"a":{"p":1}}}]}`, `{"a":[[]]}`}, true, true},
	{[]interface{}{ZSlice{}, ZSlice{{}, {{}}}}, []string{`[[],[[],[[]]]]`, `[[],[1]]`}, true, true},
	{[]interface{}{ZMap(nil), ZMap{}, ZMap{"a": {"b": nil}}}, []string{`{"a":{"b":{}},"c":null}`, `{"a":{"b":1}}`}, true, true},
	{[]interface{}{ZPtr2{}, ZPtr2{ZPtr(&ZPtr2{})}}, []string{`{"P":{"P":null}}`, `{"P":{"P":{"P":2}}}`}, true, true},
	{[]interface{}{ZMut{S: []ZMutB{}}, ZMut{&ZMutB{&ZMut{S: []ZMutB{}}, nil}, []ZMutB{{nil, map[string]*ZMut{"x": nil, "y": {S: []ZMutB{}}}}}}}, []string{`{"B":{"A":{"S":[{"M":{"k":{}}}]}}}`, `{"S":[{"A":{"B":{"M":5}}}]}`}, true, true},
	{[]interface{}{ZStr(""), ZStr("é\"")}, []string{`"x"`}, true, true},
	{[]interface{}{ZI8(0), ZI8(-128)}, []string{`127`, `128`, `-129`}, true, true},
	{[]interface{}{ZU8(0), ZU8(255)}, []string{`255`, `256`, `-1`}, true, true},
	{[]interface{}{ZF32(0), ZF32(0.1)}, []string{`0.1`, `3.5e38`}, true, true},
	{[]interface{}{ZBool(false), ZBool(true)}, []string{`true`}, true, true},
	{[]interface{}{ZInts{}, ZInts{1, -1}}, []string{`[1,2]`, `[1,"x"]`}, true, true},
	{[]interface{}{ZArr{}, ZArr{"a", "b"}}, []string{`["a"]`, `["a","b","c"]`, `["a",1]`}, true, true},
	{[]interface{}{ZObj(nil), ZObj{"a": 1}}, []string{`{"a":1,"b":-1}`, `{"a":128}`}, true, true},
	{[]interface{}{ZPoint{}, ZPoint{1, -2.5, "x"}}, []string{`{"X":1,"Y":2,"name":"n"}`, `{"X":"1"}`}, true, true},
	{[]interface{}{ZTags{}, ZTags{A: 1, B: "b", C: []string{"c"}, D: &ZTags{A: 2}, E: 1.5, F: true, G: 3, H: 0.5, I: 4, J: 5, k: 6}}, []string{`{"a":1,"b":"x","C":["y"],"d":{"a":2},"e":[1],"F":true,"-":7,"H":1,"I.x/y":3,"j j":4,"k":5}`, `{"A":1,"B":"x"}`, `{"-":256}`, `{"d":{"d":{"a":"x"}}}`}, true, true},
	{[]interface{}{map[ZTV]int{}, map[ZTV]int{1: 2, 3: 4}, map[ZTV]int{-1: 1}}, []string{`{"t<4>\"":1}`, `{"x":1}`, `{"t<1>\"":"x"}`}, true, true},
	{[]interface{}{ZTStr(""), ZTStr("a<")}, []string{`"ts:x"`, `"x"`}, true, true},
	{[]interface{}{map[ZTStr]int(nil), map[ZTStr]int{}, map[ZTStr]int{"ts:a<": 1}}, []string{`{"ts:x":1}`, `{"x":1}`}, true, true},
	{[]interface{}{map[ZKey]int(nil), map[ZKey]int{}, map[ZKey]int{{1, 2}: 1, {}: 2}}, []string{`{"1\n2":1,"3\u000a4":5}`, `{"x":1}`}, true, true},
	{[]interface{}{map[ZAcc]int(nil), map[ZAcc]int{{"a"}: 1}}, []string{`{"a":1,"b":2,"":3,"c":4}`, `{"x":1,"!":2}`, `{"!":1}`}, true, true},
	{[]interface{}{map[ZStr]string(nil), map[ZStr]string{"a<": "b"}}, []string{`{"a\n":"b"}`}, true, true},
}

// A string kind with text methods: as a map key it is written as the string, but read by its method.
type ZTStr string

func (z ZTStr) MarshalText() ([]byte, error) { return []byte("ts:" + string(z)), nil }
func (z *ZTStr) UnmarshalText(b []byte) error {
	if !strings.HasPrefix(string(b), "ts:") {
		return errZoo
	}
	*z = ZTStr(b[3:])
	return nil
}

// A struct as a map key.
// ZAcc adds what it is given to what it holds.
type ZAcc struct{ S string }

func (z ZAcc) MarshalText() ([]byte, error) { return []byte(z.S), nil }
func (z *ZAcc) UnmarshalText(b []byte) error {
	if string(b) == "!" {
		return errors.New("no")
	}
	z.S += string(b)
	return nil
}

type ZKey struct{ A, B int8 }

func (z ZKey) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%d\n%d", z.A, z.B)), nil }
func (z *ZKey) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "%d\n%d", &z.A, &z.B)
	return err
}

// Floats that are not numbers.
type ZFloat float64
type ZFloat32 float32

// refuseTypes have values that cannot be encoded, or are interfaces with methods.
var refuseTypes = []reflect.Type{
	reflect.TypeOf(ZFloat(0)), reflect.TypeOf(ZFloat32(0)), reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(complex64(1)), reflect.TypeOf(complex(1, 1)),
	reflect.TypeOf((*json.Marshaler)(nil)).Elem(), reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem(), reflect.TypeOf((*njson.Appender)(nil)).Elem(),
	reflect.TypeOf(ZFJ(nil)), reflect.TypeOf(ZCT(nil)), reflect.TypeOf(ZCA(0)),
	reflect.TypeOf(ZSC{}), reflect.TypeOf(ZSC2{}), reflect.TypeOf(ZSC3{}),
	reflect.TypeOf(map[int]string{}), reflect.TypeOf(map[ZPoint]int{}), reflect.TypeOf(map[interface{}]int{}), reflect.TypeOf(map[ZPKey]int{}),
	reflect.TypeOf(map[*ZKey]int{}), reflect.TypeOf(map[encoding.TextMarshaler]int{}),
}

// Only what ZFJ, ZCT and ZCA point to can be encoded.
type ZFJ func()
type ZSC struct {
	N int
	C chan int
}
type ZSC2 struct {
	N    int
	A, B ZSC
}

// ZPKey has the method of a key only when it is pointed to.
type ZPKey struct{ A int }

func (z *ZPKey) MarshalText() ([]byte, error) { return []byte("zpkey"), nil }

type ZSC3 struct {
	A *ZSC
	B ZSC
	C []ZSC
}

func (z *ZSC) MarshalJSON() ([]byte, error) { return []byte(`"zsc"`), nil }
func (z *ZSC) UnmarshalJSON([]byte) error   { return nil }

type ZCT chan int
type ZCA complex128

func (z *ZFJ) MarshalJSON() ([]byte, error)         { return []byte(`"zfj"`), nil }
func (z *ZFJ) UnmarshalJSON([]byte) error           { return nil }
func (z *ZCT) MarshalText() ([]byte, error)         { return []byte(`zct`), nil }
func (z *ZCT) UnmarshalText([]byte) error           { return nil }
func (z *ZCA) AppendJSON(b []byte) ([]byte, error)  { return append(b, "[0]"...), nil }
func (z *ZCA) UnmarshalNodeJSON(n njson.Node) error { return nil }

var refuseVals = map[reflect.Type][]interface{}{
	refuseTypes[0]:  {ZFloat(0), ZFloat(math.NaN()), ZFloat(math.Inf(1)), ZFloat(math.Inf(-1))},
	refuseTypes[1]:  {ZFloat32(0), ZFloat32(math.NaN()), ZFloat32(math.Inf(1)), ZFloat32(math.Inf(-1))},
	refuseTypes[2]:  {(chan int)(nil), make(chan int)},
	refuseTypes[3]:  {(func())(nil), func() {}},
	refuseTypes[4]:  {complex64(0), complex64(1)},
	refuseTypes[5]:  {complex128(0), complex128(1)},
	refuseTypes[6]:  {nil, ZJV{1}, &ZJV{2}, &ZJP{3}, (*ZJP)(nil), (*ZJV)(nil), ZJL(nil), ZJV{-1}, ZBad("{"), ZTVJP0},
	refuseTypes[7]:  {nil, ZTV(1), &ZTP{"x"}, (*ZTP)(nil), (*ZTV)(nil), ZTM(nil), ZTV(-1)},
	refuseTypes[9]:  {ZFJ(nil), ZFJ(func() {})},
	refuseTypes[10]: {ZCT(nil), make(ZCT)},
	refuseTypes[14]: {ZSC3{}, ZSC3{B: ZSC{N: 1}}, ZSC3{A: &ZSC{}, C: []ZSC{{N: 2}}}},
	refuseTypes[15]: {map[int]string{}, map[int]string{1: "x"}},
	refuseTypes[16]: {map[ZPoint]int{{}: 1}},
	refuseTypes[17]: {map[interface{}]int{"a": 1, 2: 2}},
	refuseTypes[18]: {map[ZPKey]int{{1}: 1}},
	refuseTypes[19]: {map[*ZKey]int(nil), map[*ZKey]int{nil: 1}, map[*ZKey]int{{1, 2}: 1, nil: 2}},
	refuseTypes[20]: {map[encoding.TextMarshaler]int(nil), map[encoding.TextMarshaler]int{ZKey{1, 2}: 1, &ZKey{3, 4}: 2}},
	refuseTypes[12]: {ZSC{}, ZSC{1, nil}},
	refuseTypes[13]: {ZSC2{}, ZSC2{1, ZSC{}, ZSC{2, nil}}},
	refuseTypes[11]: {ZCA(0), ZCA(2i)},
	refuseTypes[8]:  {nil, ZAV(1), &ZAP{3}, (*ZAP)(nil), (*ZAV)(nil), ZAV(-1)},
}

var ZTVJP0 = &ZTVJP{4}

func zooVals(i int) (out []reflect.Value) {
	for _, x := range zooTypes[i].vals {
		out = append(out, reflect.ValueOf(x))
	}
	return
}
