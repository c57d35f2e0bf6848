package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Property{ID: "C26", Level: "model_checked", Families: gencodeFamilies, Quick: 200, Thorough: 700,
		Assumptions: []string{
			"Every type is generated for by the real generator, compiled by the real compiler and run; the reference is the reflective codec (itself checked by C16 to C20) of a twin type whose tags spell out what the options and tags of the type ask for.",
		}})
}

// gcPrelude are the named types that fields refer to.
const gcPrelude = `
type Kind int
type Name string
type Flag bool
type Ratio float64
type Tiny uint8
type List []int
type Dict map[string]int
type Any interface{}
type PInt *int

type JSONBoth interface {
	MarshalJSON() ([]byte, error)
	UnmarshalJSON([]byte) error
}

type TextBoth interface {
	MarshalText() ([]byte, error)
	UnmarshalText([]byte) error
}

type Inner struct {
	A int ` + "`json:\"a\"`" + `
	B string
}

type Deep struct {
	I Inner
	P *Inner
	L []Inner
	M map[string]*Inner
}

type Emb struct {
	E1 int
	E2 string ` + "`json:\"e2,omitempty\"`" + `
}

type Emb2 struct {
	E1 string
	A  bool
	Emb3
}

type unexp struct {
	E1 int
	E2 string
}

type Up struct {
	U1 int
	*Up2
}

type Up2 struct {
	U2 string ` + "`json:\"u2,omitempty\"`" + `
	*Up3
}

type Up3 struct {
	U3 []int
	A  int
}

type Stamp time.Time
type Period time.Duration

type Emb3 struct {
	E3 []int ` + "`json:\"e3\"`" + `
}

// Own has methods of njson.
type Own struct{ V int }

func (a Own) AppendJSON(out []byte) ([]byte, error) {
	if a.V == -1 {
		return out, errors.New("minus one")
	}
	return append(strconv.AppendInt(append(out, "[\"own\","...), int64(a.V), 10), ']'), nil
}

func (a *Own) UnmarshalNodeJSON(n njson.Node) error {
	if n.Type() == njson.TypeNull {
		return errors.New("null")
	}
	if v, ok := n.Index(1).ToInt(); ok {
		a.V = int(v)
		return nil
	}
	return n.TypeError(njson.TypeArray)
}

// OwnP has methods of njson on its pointer.
type OwnP []int

func (a *OwnP) AppendJSON(out []byte) ([]byte, error) {
	return append(strconv.AppendInt(append(out, "{\"len\":"...), int64(len(*a)), 10), '}'), nil
}

func (a *OwnP) UnmarshalNodeJSON(n njson.Node) error {
	v, _ := n.Get("len").ToInt()
	*a = make(OwnP, v&15)
	return nil
}

// JM has methods of encoding/json.
type JM struct {
	X int
	Y string
}

func (j JM) MarshalJSON() ([]byte, error) {
	if j.X == 1 && j.Y == "" {
		return nil, errors.New("X is one")
	}
	return json.Marshal([]interface{}{j.Y, j.X})
}

func (j *JM) UnmarshalJSON(b []byte) error {
	if string(b) == "null" {
		j.Y = "was null"
		return nil
	}
	return json.Unmarshal(b, &[]interface{}{&j.Y, &j.X})
}

// JMP has methods of encoding/json on its pointer.
type JMP map[string]int

func (j *JMP) MarshalJSON() ([]byte, error) { return []byte(" { \"size\" : " + strconv.Itoa(len(*j)) + " } "), nil }

func (j *JMP) UnmarshalJSON(b []byte) error {
	*j = JMP{string(b): len(b)}
	return nil
}

// TM has methods of encoding.
type TM struct{ S string }

func (t TM) MarshalText() ([]byte, error) {
	if t.S == "a" {
		return nil, errors.New("S is a")
	}
	return []byte("t:" + t.S), nil
}

func (t *TM) UnmarshalText(b []byte) error {
	if len(b) < 2 {
		return errors.New("too short")
	}
	t.S = string(b[2:])
	return nil
}

// TMP has methods of encoding on its pointer.
type TMP string

func (t *TMP) MarshalText() ([]byte, error) { return []byte(strings.ToUpper(string(*t)) + "\n"), nil }

func (t *TMP) UnmarshalText(b []byte) error {
	*t = TMP("<" + string(b) + ">")
	return nil
}

// Key is a map key with methods of encoding.
type Key int

func (k Key) MarshalText() ([]byte, error) { return []byte("k\"" + strconv.Itoa(int(k))), nil }

func (k *Key) UnmarshalText(b []byte) error {
	if len(b) < 2 {
		return errors.New("no key")
	}
	n, err := strconv.Atoi(string(b[2:]))
	*k = Key(n)
	return err
}

// Om, OmP and OmS can be empty.
type Om int

func (o Om) Omit() bool { return o == 1 }
func (o Om) Empty() bool { return o == -1 }

type OmP string

func (o *OmP) Omit() bool { return *o == "a" }

type OmS struct{ A, B int }

func (o OmS) Omit() bool { return o.A == o.B }

func (o OmS) Empty() bool { return o.A != o.B }

type OmSP struct{ A, B int }

func (o *OmSP) Omit() bool { return o.A != o.B }
`

// gcMix defines types with every combination of marshal and unmarshal methods.
func gcMix() (names []string, src string) {
	for m := 0; m < 8; m++ {
		for u := 0; u < 8; u++ {
			if m+u == 0 {
				continue
			}
			n := fmt.Sprintf("Mix%d%d", m, u)
			names = append(names, n)
			def := "struct{ V int }"
			get, set, typ := "m.V", "m.V", "int"
			if (m+u)%3 == 0 {
				def, get, set, typ = "int", "int(m)", "*m", n
			}
			src += "type " + n + " " + def + "\n"
			if m&1 != 0 {
				src += "func (m " + n + ") AppendJSON(out []byte) ([]byte, error) { return strconv.AppendInt(append(out, '1'), int64(" + get + ")&0xff, 10), nil }\n"
			}
			if m&2 != 0 {
				src += "func (m " + n + ") MarshalJSON() ([]byte, error) { return strconv.AppendInt([]byte{'2'}, int64(" + get + ")&0xff, 10), nil }\n"
			}
			if m&4 != 0 {
				src += "func (m " + n + ") MarshalText() ([]byte, error) { return strconv.AppendInt([]byte{'3'}, int64(" + get + ")&0xff, 10), nil }\n"
			}
			for bit, head := range []string{"UnmarshalNodeJSON(n njson.Node)", "UnmarshalJSON(b []byte)", "UnmarshalText(b []byte)"} {
				if u&(1<<uint(bit)) != 0 {
					arg := "len(b)"
					if bit == 0 {
						arg = "len(n.Raw())"
					}
					src += "func (m *" + n + ") " + head + fmt.Sprintf(" error { %s = %s(%d + %s); return nil }\n", set, typ, 1000*(bit+1), arg)
				}
			}
		}
	}
	return
}

// gcOwn are the types with methods.
var gcOwn = []string{"Own", "OwnP", "JM", "JMP", "TM", "TMP"}

func gcOwns() (defs []gcDef) {
	for _, typ := range gcOwn {
		wraps := []string{"", "*", "[]", "[]*", "**", "*[]"}
		if !strings.HasSuffix(typ, "P") { // elements of maps have no address
			wraps = append(wraps, "map[string]", "map[Name]", "map[Key]")
		}
		wraps = append(wraps, "map[string]*")
		for _, w := range wraps {
			defs = append(defs, gcDef{fields: []gcField{{"F", w + typ, ""}}, depth: 3})
			defs = append(defs, gcDef{fields: []gcField{{"B", "bool", ""}, {"F", w + typ, `json:"f"`}, {"G", "[]int", `json:"g,omitempty"`}}, depth: 2})
		}
	}
	names, _ := gcMix()
	for _, typ := range names {
		defs = append(defs, gcDef{fields: []gcField{{"F", typ, ""}, {"P", "*" + typ, "json:\"p\""}, {"L", "[]" + typ, ""}, {"M", "map[string]" + typ, ""}}, depth: 3})
		defs = append(defs, gcDef{fields: []gcField{{"P", "*" + typ, `json:",omitempty"`}}, depth: 3})
	}
	for _, typ := range []string{"Om", "OmP", "OmS", "OmSP"} {
		for _, w := range []string{"", "*", "[]", "map[string]"} {
			for _, opt := range []GenOptions{{}, {OmitEmpty: true}, {Omit: "Empty"}} {
				if opt.Omit != "" && strings.HasSuffix(typ, "P") && (w == "" || w == "*") {
					continue // without the method this is like any other type, which other cases have
				}
				defs = append(defs, gcDef{opt: opt, fields: []gcField{{"F", w + typ, `json:"f,omitempty"`}}, depth: 3})
			}
		}
	}
	return
}

func gcNamed(thorough bool) (defs []gcDef) {
	for _, decl := range []string{"int", "string", "bool", "float32", "[]string", "[]*Inner", "map[string]int", "map[Name][]Inner", "*int", "interface{}", "[]interface{}", "struct{}", "Inner", "Deep", "Emb2", "List", "Any", "[]byte", "map[Key]bool"} {
		if strings.HasPrefix(decl, "*") || decl == "interface{}" || decl == "Any" {
			continue // such types have no methods
		}
		defs = append(defs, gcDef{decl: decl, depth: 3})
	}
	for _, decl := range []string{"struct { V int; N *@ }", "struct { V string `json:\"v,omitempty\"`; Kids []@ `json:\"kids,omitempty\"` }", "struct { M map[string]@; F *bool }", "[]@", "map[string]@", "struct { A []*@; B map[string]*@ }", "struct { X struct{ Y *@ } }", "[]*@", "struct { P **@; I int }"} {
		defs = append(defs, gcDef{decl: decl, depth: 4})
	}
	return
}

// type definitions
type gcField struct {
	name, typ, tag string // name is empty for embedded fields
}

type gcDef struct {
	opt    GenOptions
	fields []gcField
	decl   string // other definition: the type expression; twin is the same
	depth  int
	only   string // "u": the append method is refused, "a": the unmarshal method is not looked at
	docs   []string
}

func (f gcField) goName() string {
	if f.name != "" {
		return f.name
	}
	t := strings.TrimPrefix(f.typ, "*")
	return t[strings.LastIndexByte(t, '.')+1:]
}

func (f gcField) decl(tag string) string {
	s := f.typ
	if f.name != "" {
		s = f.name + " " + s
	}
	if tag != "" {
		s += " `" + tag + "`"
	}
	return s
}

var gcCases = map[string]map[string]string{
	"snake": {"FieldName": "field_name", "A": "a", "Other": "other", "Third": "third", "low": "low", "lowField": "low_field", "E1": "e_1", "E2": "e_2"},
	"lower": {"FieldName": "fieldname", "A": "a", "Other": "other", "Third": "third", "low": "low", "lowField": "lowfield", "E1": "e1", "E2": "e2"},
	"camel": {"FieldName": "fieldName", "A": "a", "Other": "other", "Third": "third", "low": "low", "lowField": "lowField", "E1": "e1", "E2": "e2"},
	"Camel": {"FieldName": "FieldName", "A": "A", "Other": "Other", "Third": "Third", "low": "Low", "lowField": "LowField", "E1": "E1", "E2": "E2"},
}

// twinTag spells out what the options and the tag of a field ask for.
func (d gcDef) twinTag(f gcField) string {
	if f.name == "_" {
		return ""
	}
	key := d.opt.Tag
	if key == "" {
		key = "json"
	}
	val, tagged := reflect.StructTag(f.tag).Lookup(key)
	name, params, _ := strings.Cut(val, ",")
	if name == "-" {
		return `json:"-"`
	}
	if f.name == "" && name == "" {
		if tagged {
			return fmt.Sprintf("json:%q", ","+params)
		}
		return "" // embedded
	}
	if d.opt.OnlyTagged && !tagged || d.opt.Match != "" && !regexp.MustCompile(d.opt.Match).MatchString(f.goName()) {
		return `json:"-"`
	}
	if name == "" {
		name = f.goName()
		if d.opt.Case != "" {
			n, ok := gcCases[d.opt.Case][name]
			if !ok {
				panic("no case of " + name)
			}
			name = n
		}
	}
	if plain, _, _ := strings.Cut(val, ","); plain == "" && name == f.goName() {
		name = "" // untagged fields give way to tagged ones
	}
	omit := d.opt.OmitEmpty
	for _, p := range strings.Split(params, ",") {
		switch p {
		case "omitempty":
			omit = true
		case "raw":
			name += ",8bit"
		}
	}
	if omit {
		name += ",omitempty"
	}
	return fmt.Sprintf("json:%q", name)
}

func (d gcDef) source(name string, twin bool) string {
	if i := strings.Index(d.decl, "{ X "); i >= 0 && d.only == "u" && twin {
		return "type " + name + " " + strings.TrimSuffix(d.decl, "}") + "`json:\"-\"` }\n"
	}
	if d.decl != "" {
		return "type " + name + " " + strings.Replace(d.decl, "@", name, -1) + "\n"
	}
	var b strings.Builder
	inner := ""
	b.WriteString("type " + name + " struct {\n")
	for _, f := range d.fields {
		tag := f.tag
		if twin {
			tag = d.twinTag(f)
			if fields := gcEmbedded[f.goName()]; f.name == "" && tag == "" && fields != nil && d.opt != (GenOptions{}) {
				// the options apply to the fields of embedded structs
				star := f.typ[:len(f.typ)-len(f.goName())]
				e := strings.ToUpper(name) + f.goName()
				if f.goName() == "unexp" {
					e = name + f.goName()
				}
				inner += gcDef{opt: d.opt, fields: fields}.source(e, true)
				f.typ = star + e
			}
			if name := f.name; name != "" && name != "_" && name[0] >= 'a' && !d.opt.OnlyExported {
				// the generator's methods use such fields
				f.name = strings.ToUpper(name[:1]) + name[1:]
				if !strings.Contains(tag, "\"-") && (tag == "" || strings.HasPrefix(tag, "json:\",") || tag == "json:\"\"") {
					_, params, _ := strings.Cut(strings.TrimSuffix(strings.TrimPrefix(tag, "json:\""), "\""), ",")
					tag = fmt.Sprintf("json:%q", strings.TrimSuffix(name+","+params, ","))
				}
			}
			if i := strings.Index(f.typ, "{ X "); i >= 0 && d.only == "u" {
				f.typ = strings.TrimSuffix(f.typ, "}") + "`json:\"-\"` }"
			} else if d.only == "u" && f.name == "F" {
				tag = `json:"-"`
			}
		}
		b.WriteString("\t" + f.decl(tag) + "\n")
	}
	b.WriteString("}\n")
	return b.String() + inner
}

// gcEmbedded are the fields of types that are embedded.
var gcEmbedded = map[string][]gcField{
	"unexp": {{"E1", "int", ""}, {"E2", "string", ""}},
	"Emb":   {{"E1", "int", ""}, {"E2", "string", `json:"e2,omitempty"`}},
}

func (d gcDef) String() string {
	s := strings.Join(strings.Fields(d.source("T", false)), " ")
	if d.opt != (GenOptions{}) {
		s += fmt.Sprintf(" with options %+v", d.opt)
	}
	return s
}

var gcBasic = []string{"bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}

// gcTypes are the field types.
func gcTypes(thorough bool) (types []string) {
	types = append(types, gcBasic...)
	types = append(types, "Kind", "Name", "Flag", "Ratio", "Tiny", "interface{}", "Any")
	types = append(types, "List", "Dict", "Inner", "Deep", "time.Time", "time.Duration", "Stamp", "Period", "url.Values", "url.URL", "net.IP", "big.Int", "netip.Addr", "struct{}", "struct{ X int; Y []string `json:\"y\"` }", "map[string]struct{ T time.Time `json:\"-\"`; X int }", "*struct{ U *url.URL `json:\"-\"`; M map[url.Error]time.Month `json:\"-\"` }", "map[string]struct{ A, B int8; C func(net.IP) `json:\"-\"` }")
	elems := []string{"bool", "string", "int8", "uint16", "int", "float64", "Kind", "Name", "interface{}", "Inner", "List", "Dict", "time.Time"}
	if thorough {
		elems = append(append([]string{}, gcBasic...), "Kind", "Name", "Flag", "Ratio", "Tiny", "interface{}", "Any", "List", "Dict", "Inner", "Deep", "time.Time", "time.Duration", "struct{ X *int }", "struct{}")
	}
	var one []string
	for _, e := range elems {
		one = append(one, "[]"+e, "*"+e, "map[string]"+e)
	}
	types = append(types, one...)
	types = append(types, "map[Name]int", "map[Name]Inner")
	for _, e := range one {
		if thorough || strings.HasSuffix(e, "]int") || strings.HasSuffix(e, "]Inner") || strings.HasSuffix(e, "*Inner") || strings.HasSuffix(e, "string") {
			types = append(types, "[]"+e, "*"+e, "map[string]"+e)
		}
	}
	return
}

func gcSingles(thorough bool) (defs []gcDef) {
	tags := []string{"", `json:"x"`, `json:"y,omitempty"`}
	for _, typ := range gcTypes(thorough) {
		for _, tag := range tags {
			if strings.Contains(tag, "omitempty") && !gcCanOmit(typ) {
				continue
			}
			defs = append(defs, gcDef{fields: []gcField{{"F", typ, tag}}, depth: 3})
		}
	}
	return
}

// gcCanOmit reports if the generator supports omitempty for a type (it refuses structs).
func gcCanOmit(typ string) bool {
	switch {
	case strings.HasPrefix(typ, "struct"), typ == "Inner", typ == "Deep", typ == "time.Time", typ == "Stamp", typ == "url.URL", typ == "big.Int", typ == "netip.Addr":
		return false
	}
	return true
}

func gcTags() (defs []gcDef) {
	for _, tag := range []string{`json:"-"`, `json:",omitempty"`, `json:",raw"`, `json:"r,raw"`, `json:"a b"`, `json:"a%d"`, `json:"a%sb"`, `json:"é"`, `json:"a\"b"`, `json:"a\\b"`, `json:"<&>"`, `json:"x,unknown"`, `json:"x,unknown,omitempty"`, `db:"z"`, `json:""`, `json:","`, `db:"d" json:"j"`, `json:"{}"`, `json:"null"`} {
		for _, typ := range []string{"string", "int", "[]string", "*string"} {
			if strings.Contains(tag, "raw") && typ != "string" {
				continue
			}
			defs = append(defs, gcDef{fields: []gcField{{"F", typ, tag}}, depth: 2}, gcDef{fields: []gcField{{"First", "bool", ""}, {"F", typ, tag}, {"Last", "string", `json:",omitempty"`}}, depth: 2})
		}
	}
	return
}

func gcPairs(thorough bool) (defs []gcDef) {
	parts := []gcField{{"A", "int", `json:"a"`}, {"B", "string", ""}, {"", "Emb", ""}, {"", "*Emb", ""}, {"", "Emb2", ""}, {"", "Inner", `json:"inner"`}, {"E1", "[]int", ""}, {"C", "bool", `json:"E1"`}, {"", "*Inner", ""}, {"X", "*Deep", `json:",omitempty"`}, {"E3", "float64", ""}, {"", "Kind", ""}, {"", "Up", ""}, {"", "*Up", ""}, {"", "*Up2", ""}}
	var rec func(fields []gcField, n int)
	rec = func(fields []gcField, n int) {
		if len(fields) > 0 {
			defs = append(defs, gcDef{fields: append([]gcField(nil), fields...), depth: 2})
		}
		if n == 0 {
			return
		}
		for _, p := range parts {
			clash := false
			for _, f := range fields {
				if f.goName() == p.goName() {
					clash = true
				}
			}
			if !clash {
				rec(append(fields[:len(fields):len(fields)], p), n-1)
			}
		}
	}
	n := 2
	if thorough {
		n = 3
	}
	rec(nil, n)
	return
}

// gcWide are structs with more fields than one digit counts, or than short lists sort by insertion.
func gcWide(thorough bool) (defs []gcDef) {
	sizes := []int{9, 10, 11, 12, 13, 33}
	if thorough {
		sizes = append(sizes, 8, 14, 15, 16, 17, 18, 31, 32, 63, 64, 65, 129)
	}
	types := []string{"int", "string", "[]int", "*bool", "float64"}
	for _, n := range sizes {
		for k := 0; k < 6; k++ {
			var fields []gcField
			for i := 0; i < n; i++ {
				tag := ""
				if i%3 == 1 {
					tag = `json:",omitempty"`
				}
				typ := types[i%len(types)]
				if k >= 3 {
					typ = "int"
				}
				fields = append(fields, gcField{fmt.Sprintf("F%d", (i*7+3)%n*3+i%2), typ, tag})
				if k%3 > 0 && i == []int{n / 2, n - 2}[k%3-1] {
					fields = append(fields, gcField{"", []string{"Emb", "*Emb"}[k/3], ""})
				}
			}
			names := map[string]bool{}
			for _, f := range fields {
				names[f.name] = true
			}
			if len(names) == len(fields) {
				defs = append(defs, gcDef{fields: fields, depth: 1})
			}
		}
	}
	return
}

func gcOptions() (defs []gcDef) {
	fields := []gcField{{"FieldName", "int", ""}, {"Other", "string", `json:"o"`}, {"A", "[]int", `db:"adb,omitempty"`}, {"Third", "*bool", `json:"third,omitempty" db:"-"`}}
	for _, opt := range []GenOptions{{}, {Case: "snake"}, {Case: "lower"}, {Case: "camel"}, {Case: "Camel"}, {OnlyTagged: true}, {OmitEmpty: true}, {Tag: "db"}, {Tag: "db", OnlyTagged: true}, {Match: "^A|e"}, {Match: "^$"}, {Match: "d$", Case: "snake"}, {OnlyExported: true}, {Append: "WriteTo"}, {Unmarshal: "ReadFrom"}, {Append: "Out", Unmarshal: "In", OmitEmpty: true}, {Tag: "db", Case: "snake", OmitEmpty: true}} {
		for i := range fields {
			defs = append(defs, gcDef{opt: opt, fields: fields[i : i+1], depth: 2})
		}
		defs = append(defs, gcDef{opt: opt, fields: fields, depth: 2})
		defs = append(defs, gcDef{opt: opt, fields: []gcField{fields[3], fields[2], fields[0]}, depth: 2})
		for _, e := range []string{"Emb", "*Emb", "unexp"} {
			defs = append(defs, gcDef{opt: opt, fields: []gcField{{"", e, ""}}, depth: 2})
			defs = append(defs, gcDef{opt: opt, fields: []gcField{fields[0], {"", e, ""}, fields[1]}, depth: 2})
		}
	}
	return
}

func gcUnexported() (defs []gcDef) {
	parts := []gcField{{"low", "int", ""}, {"lowField", "[]string", ""}, {"l", "string", `json:"tagged"`}, {"q", "*int", `json:",omitempty"`}, {"A", "bool", ""}, {"_", "int", ""}, {"", "unexp", ""}, {"h", "string", `json:"-"`}, {"Other", "map[string]int", `json:"o"`}}
	for _, opt := range []GenOptions{{}, {OnlyExported: true}, {Case: "snake"}, {Case: "Camel"}, {OnlyTagged: true}, {OmitEmpty: true}, {Match: "^low|^l$|^E1$", Unmarshal: "Read"}} {
		for i := range parts {
			one := parts[i : i+1]
			if opt.Case != "" && (strings.Contains("lqh", parts[i].name)) {
				continue
			}
			defs = append(defs, gcDef{opt: opt, fields: one, depth: 2})
			for j := range parts {
				if i != j && !(opt.Case != "" && strings.Contains("lqh", parts[j].name)) {
					defs = append(defs, gcDef{opt: opt, fields: []gcField{parts[i], parts[j]}, depth: 2})
				}
			}
		}
	}
	return
}

// gcBatches groups definitions by options.
func gcBatches(defs []gcDef, size int) (batches [][]gcDef) {
	keys := []GenOptions{}
	by := map[GenOptions][]gcDef{}
	for _, d := range defs {
		if by[d.opt] == nil {
			keys = append(keys, d.opt)
		}
		by[d.opt] = append(by[d.opt], d)
	}
	for _, k := range keys {
		for ds := by[k]; len(ds) > 0; {
			n := size
			if n > len(ds) {
				n = len(ds)
			}
			batches = append(batches, ds[:n:n])
			ds = ds[n:]
		}
	}
	return
}

var gcModule sync.Once

// gcDir prepares the module in which generated code is compiled.
func gcDir() string {
	dir := filepath.Join(os.Getenv("VERIF_GEN"), "batch")
	gcModule.Do(func() {
		os.MkdirAll(dir, 0o755)
		mod, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_GEN"), "go.mod"))
		if err != nil {
			panic(err)
		}
		text := strings.Replace(string(mod), "module verif/mc", "module genbatch", 1) + "\nrequire verif/mc v0.0.0\n\nreplace verif/mc => " + os.Getenv("VERIF_MC") + "\n"
		if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(text), 0o644); err != nil {
			panic(err)
		}
	})
	return dir
}

// checkGen generates, compiles and runs a batch of types.
func checkGen(batches [][]gcDef) func(t *core.T, c []byte) {
	return func(t *core.T, c []byte) {
		batch := batches[int(c[0])<<8|int(c[1])]
		if msg := runBatch(t, batch); msg != "" {
			if len(batch) > 1 && strings.HasPrefix(msg, "compile: ") {
				// find the types
				for _, d := range batch {
					if m := runBatch(t, []gcDef{d}); m != "" {
						t.Failf("%s", m)
					}
				}
			}
			t.Failf("%s", msg)
		}
	}
}

var gcBad = []string{"chan int", "error", "[2]int", "func()", "complex128", "interface{ Foo() }", "[0]string", "fmt.Stringer"}

// gcRefused are types that are not supported.
func gcRefused(thorough bool) (defs []gcDef) {
	docs := func(key string) (all []string) {
		for _, v := range []string{"null", "1", "true", `"s"`, "[]", "[1,2]", "[null]", "{}", `{"a":1}`, `{"":null}`} {
			all = append(all, fmt.Sprintf("{%q:%s}", key, v), fmt.Sprintf("{%q:%s,\"Last\":\"l\"}", key, v))
		}
		return
	}
	bads := gcBad
	if !thorough {
		bads = bads[:3]
	}
	for _, bad := range bads {
		for _, w := range []string{"", "[]", "*", "[]*", "map[string]", "map[string][]", "[][]", "struct{ X ", "[]struct{ X "} {
			typ := w + bad
			if strings.Contains(typ, "{ X ") {
				typ += " }"
			}
			for _, fields := range [][]gcField{{{"F", typ, ""}}, {{"First", "int", ""}, {"F", typ, `json:"f,omitempty"`}, {"Last", "string", ""}}} {
				d := gcDef{fields: fields, depth: 1, only: "u", docs: append(docs("F"), docs("f")...)}
				defs = append(defs, d)
			}
			if w != "*" && w+bad != "error" && w+bad != "fmt.Stringer" && !strings.HasPrefix(typ, "interface") {
				defs = append(defs, gcDef{decl: typ, depth: 1, only: "u"})
			}
		}
	}
	for _, key := range []string{"int", "bool", "interface{}", "[1]string", "struct{}", "*string"} {
		defs = append(defs, gcDef{fields: []gcField{{"F", "map[" + key + "]string", ""}}, only: "u", docs: docs("F")}, gcDef{decl: "map[" + key + "]int", only: "u"})
	}
	return
}

// checkRefused: a type that is not supported is refused, or (fields when unmarshaling) left alone.
func checkRefused(defs []gcDef) func(t *core.T, c []byte) {
	return func(t *core.T, c []byte) {
		d := defs[int(c[0])<<8|int(c[1])]
		dir, err := os.MkdirTemp(gcDir(), "b")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		src := d.source("T0", false)
		head := "package main\n\n"
		for _, n := range []string{"fmt", "unsafe"} {
			if strings.Contains(src, n+".") {
				head += "import \"" + n + "\"\n"
			}
		}
		if err := os.WriteFile(filepath.Join(dir, "types.go"), []byte(head+src), 0o644); err != nil {
			panic(err)
		}
		g, err := NewGenDir(dir, "main", d.opt)
		if err != nil {
			t.Failf("loading the package: %v", err)
		}
		g.Reset()
		t.Runs(4)
		t.Steps(4)
		t.State(d.String())
		size := func() int {
			out, err := g.Print(true)
			if err != nil {
				t.Failf("%s: %v", d, err)
			}
			return strings.Count(out, "func ")
		}
		if err := g.WriteAppender("Missing"); err == nil {
			t.Failf("an append method for an unknown type is not refused")
		}
		if err := g.WriteUnmarshaler("Missing"); err == nil {
			t.Failf("an unmarshal method for an unknown type is not refused")
		}
		if err := g.WriteAppender("T0"); err == nil {
			t.Failf("%s: the append method is not refused", d)
		}
		if n := size(); n != 0 {
			t.Failf("%s: the append method is refused but written", d)
		}
		g.Reset()
		if err := g.WriteUnmarshaler("T0"); err != nil {
			t.Count("unmarshal methods refused")
			if n := size(); n != 0 {
				t.Failf("%s: the unmarshal method is refused but written", d)
			}
			return
		}
		if n := size(); n != 1 {
			t.Failf("%s: the unmarshal method is not refused, but %d functions are written", d, n)
		}
		// the field is left alone
		t.Count("unmarshal methods that leave the field alone")
		if msg := runBatch(t, []gcDef{d}); msg != "" {
			t.Failf("%s", msg)
		}
	}
}

// gcInterfaces are fields of interfaces with methods, for which there are only append methods.
func gcInterfaces() (defs []gcDef) {
	for _, typ := range []string{"JSONBoth", "TextBoth", "interface{ json.Marshaler; json.Unmarshaler }", "interface{ UnmarshalText([]byte) error; MarshalText() ([]byte, error) }"} {
		for _, w := range []string{"", "[]", "map[string]", "[][]"} {
			defs = append(defs, gcDef{fields: []gcField{{"F", w + typ, ""}}, depth: 2, only: "a"},
				gcDef{fields: []gcField{{"A", "int", ""}, {"F", w + typ, `json:"f,omitempty"`}, {"L", "[]int", ""}}, depth: 2, only: "a"})
		}
	}
	return
}

// gcDurations are types that hold nothing but durations.
func gcDurations() (defs []gcDef) {
	texts := []string{`"1h"`, `"1h30m"`, `"-5ms"`, `"1.5s"`, `"0"`, `"1"`, `""`, `" 1s"`, `"1s "`, `"s"`, `"+2h"`, `"1e3s"`, `"2562047h47m16.854775807s"`, `"2562047h47m16.854775808s"`,
		`"-2562047h47m16.854775808s"`, `"\u0031h"`, `"1\u00b5s"`, `"1µs"`, `"1d"`, `".5m"`, `"3000000h"`, `1`, `-1`, `1.5`, `9223372036854775807`, `9223372036854775808`}
	for _, w := range []struct{ typ, doc string }{{"", "%s"}, {"*", "%s"}, {"[]", "[%s]"}, {"[]", "[1,%s]"}, {"[]*", "[null,%s]"}, {"map[string]", `{"1h":%s}`}, {"map[string][]", `{"a":[%s],"b":null}`}} {
		typ := w.typ + "time.Duration"
		for _, fields := range [][]gcField{{{"F", typ, ""}}, {{"G", "time.Duration", `json:"g"`}, {"F", typ, `json:"F,omitempty"`}}} {
			d := gcDef{fields: fields, depth: 2}
			for _, x := range texts {
				d.docs = append(d.docs, `{"F":`+fmt.Sprintf(w.doc, x)+`}`, `{"F":`+fmt.Sprintf(w.doc, x)+`,"g":`+x+`}`)
			}
			defs = append(defs, d)
		}
		if w.typ != "" && w.typ[0] != '*' {
			d := gcDef{decl: typ, depth: 2}
			for _, x := range texts {
				d.docs = append(d.docs, fmt.Sprintf(w.doc, x))
			}
			defs = append(defs, d)
		}
	}
	return
}

const gcRefusesAppend = "the generator refuses the append method"

// gcOmits are fields that may be omitted when empty of types whose emptiness the generator need not know.
func gcOmits(thorough bool) (defs []gcDef) {
	types := []string{"Inner", "struct{}", "struct{ X int }", "time.Time", "Deep"}
	if thorough {
		types = append(types, "Stamp", "url.URL", "struct{ P *int }", "struct{ M map[string]int; S []int }")
	}
	for _, typ := range types {
		for _, f := range [][]gcField{
			{{"F", typ, `json:",omitempty"`}},
			{{"First", "int", ""}, {"F", typ, `json:"f,omitempty"`}, {"Last", "string", `json:",omitempty"`}},
			{{"F", typ, `json:",omitempty"`}, {"G", "*" + typ, `json:",omitempty"`}},
		} {
			defs = append(defs, gcDef{fields: f, depth: 3})
		}
		defs = append(defs, gcDef{fields: []gcField{{"F", typ, ""}, {"Last", "int", ""}}, depth: 3, opt: GenOptions{OmitEmpty: true}})
	}
	return
}

// checkMaybe: the append method is refused, or is right.
func checkMaybe(defs []gcDef) func(t *core.T, c []byte) {
	return func(t *core.T, c []byte) {
		d := defs[int(c[0])<<8|int(c[1])]
		t.Runs(1)
		t.Steps(1)
		t.State(d.String())
		msg := runBatch(t, []gcDef{d})
		if strings.Contains(msg, gcRefusesAppend) {
			t.Count("append methods refused")
			d.only = "u"
			msg = runBatch(t, []gcDef{d})
		}
		if msg != "" {
			t.Failf("%s", msg)
		}
	}
}

func omitMethod(name string) string {
	if name == "" {
		return "Omit"
	}
	return name
}

func runBatch(t *core.T, batch []gcDef) string {
	dir, err := os.MkdirTemp(gcDir(), "b")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	opt := batch[0].opt
	write := func(name, text string) {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	gcImports := func(src string, names ...string) string {
		s := ""
		for _, n := range names {
			if strings.Contains(src, n[strings.LastIndexByte(n, '/')+1:]+".") {
				s += "import \"" + n + "\"\n"
			}
		}
		return s
	}
	_, mix := gcMix()
	if !strings.Contains(fmt.Sprint(batch), "Mix") {
		mix = ""
	}
	src, twins, reg := gcPrelude+mix, "", ""
	app, unm := opt.Append, opt.Unmarshal
	if app == "" {
		app = "AppendJSON"
	}
	if unm == "" {
		unm = "UnmarshalNodeJSON"
	}
	for i, d := range batch {
		appender := fmt.Sprintf("func(x interface{}, out []byte) ([]byte, error) { return x.(*T%d).%s(out) }", i, app)
		if d.only == "u" {
			appender = "nil"
		}
		unmarshaler := fmt.Sprintf("func(x interface{}, n njson.Node) error { return x.(*T%d).%s(n) }", i, unm)
		if d.only == "a" {
			unmarshaler = "nil"
		}
		src += d.source(fmt.Sprintf("T%d", i), false)
		twins += d.source(fmt.Sprintf("p%d", i), true)
		reg += fmt.Sprintf("\t{Def: %q, T: new(T%d), Plain: new(p%d), Append: %s, Docs: %#v, Unmarshal: %s, Depth: %d, Raw: %v, Options: unjson.Options{OmitMethod: %q, OmitEmpty: %v}},\n", d.String(), i, i, appender, d.docs, unmarshaler, d.depth, strings.Contains(d.String(), ",raw"), omitMethod(opt.Omit), opt.OmitEmpty)
	}
	std := []string{"errors", "fmt", "unsafe", "strconv", "strings", "time", "net/url", "net", "net/netip", "math/big", "encoding/json", "github.com/alxarch/njson"}
	src = "package main\n\n" + gcImports(src, std...) + src
	write("types.go", src)
	g, err := NewGenDir(dir, "main", opt)
	if err != nil {
		return "loading the package: " + err.Error()
	}
	g.Reset()
	for i, d := range batch {
		name := fmt.Sprintf("T%d", i)
		if err := g.WriteUnmarshaler(name); err != nil && d.only != "a" {
			return fmt.Sprintf("%s: the generator refuses the unmarshal method: %v", d, err)
		}
		if d.only == "u" {
			if err := g.WriteAppender(name); err == nil {
				return fmt.Sprintf("%s: the append method is not refused", d)
			}
		} else if err := g.WriteAppender(name); err != nil {
			return fmt.Sprintf("%s: %s: %v", d, gcRefusesAppend, err)
		}
	}
	out, err := g.Print(false)
	if err != nil {
		return fmt.Sprintf("compile: %s: %v", batch[0], err)
	}
	write(g.Filename(), out)
	write("twins.go", "package main\n\n"+gcImports(twins, std...)+twins)
	write("main.go", "package main\n\nimport (\n\t\"github.com/alxarch/njson\"\n\t\"github.com/alxarch/njson/unjson\"\n\t\"verif/mc/genrt\"\n)\n\nvar _ njson.Node\n\nfunc main() { genrt.Main([]genrt.Entry{\n"+reg+"}) }\n")
	cmd := exec.Command("go", "build", "-o", filepath.Join(dir, "run"), ".")
	cmd.Dir = dir
	if msg, err := cmd.CombinedOutput(); err != nil {
		lines := strings.SplitN(string(msg), "\n", 6)
		if len(batch) == 1 {
			for i, l := range lines {
				// show the line
				if p := strings.Split(l, ":"); len(p) > 2 && strings.HasSuffix(p[0], g.Filename()) {
					if n, _ := strconv.Atoi(p[1]); n > 0 {
						if text := strings.Split(out, "\n"); n <= len(text) {
							lines[i] += " in: " + strings.TrimSpace(text[n-1])
						}
					}
				}
			}
		}
		return fmt.Sprintf("compile: %s: the generated code does not compile: %s", batch[0], strings.Join(lines[:len(lines)-1], " "))
	}
	var stderr bytes.Buffer
	cmd = exec.Command(filepath.Join(dir, "run"))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	cmd.Stderr = &stderr
	res, err := cmd.Output()
	if err != nil {
		s := stderr.String()
		if len(s) > 1500 {
			s = s[:1500]
		}
		return fmt.Sprintf("%s...: running the generated code: %v %s", batch[0], err, s)
	}
	dec := json.NewDecoder(bytes.NewReader(res))
	n := 0
	var msgs []string
	for ; dec.More(); n++ {
		var r struct {
			I, Cases, Accepted int
			Msg                map[string]string
		}
		if err := dec.Decode(&r); err != nil {
			return err.Error()
		}
		t.Runs(r.Cases)
		t.Steps(r.Cases)
		t.State(batch[r.I].String())
		t.Count("types generated for, compiled and run")
		var kinds []string
		for k := range r.Msg {
			kinds = append(kinds, k)
		}
		sort.Strings(kinds)
		for _, k := range kinds {
			m := r.Msg[k]
			if len(m) > 700 {
				m = m[:700]
			}
			msgs = append(msgs, batch[r.I].String()+": "+m)
		}
	}
	if n != len(batch) {
		return fmt.Sprintf("%d of %d types were run", n, len(batch))
	}
	if len(msgs) > 0 {
		k := 3
		if os.Getenv("VERIF_VERBOSE") != "" {
			k = 1000
		}
		if len(msgs) < k {
			k = len(msgs)
		}
		return strings.Join(msgs[:k], "\n")
	}
	return ""
}

func gencodeFamilies(tier string) []core.Family {
	thorough := tier == "thorough"
	fam := func(name, rule string, defs []gcDef) core.Family {
		batches := gcBatches(defs, 24)
		return core.Family{Name: name, Timeout: 5 * time.Minute, Variant: "gen", Heavy: true, Rule: rule,
			Enum: func(emit func(c []byte) bool) {
				for i := range batches {
					if !emit([]byte{byte(i >> 8), byte(i)}) {
						return
					}
				}
			},
			Check: checkGen(batches),
			Show: func(c []byte) string {
				if len(c) < 2 {
					return "?"
				}
				b := batches[int(c[0])<<8|int(c[1])]
				return fmt.Sprintf("%d types from %s to %s", len(b), b[0], b[len(b)-1])
			}}
	}
	refused := gcRefused(thorough)
	omits := gcOmits(thorough)
	return []core.Family{
		fam("types", "structs with one field of every type of nesting depth up to 2, in 3 ways of tagging; all boundary values and all documents with one member replaced by each of 39 values", gcSingles(thorough)),
		fam("tags", "19 tags on 4 field types, alone and between other fields", gcTags()),
		fam("fields", "structs with every list of up to 2 (thorough 3) of 12 plain, tagged, embedded and clashing fields", gcPairs(thorough)),
		fam("wide", "structs with 9 to 33 (thorough 129) fields, declared in other than alphabetical order, with and without an embedded struct among them", gcWide(thorough)),
		fam("own", "types with marshal, unmarshal and omit methods on the value or on the pointer, alone and in pointers, slices and maps", gcOwns()),
		fam("named", "types other than structs, and recursive types", gcNamed(thorough)),
		{Name: "refused", Timeout: 5 * time.Minute, Variant: "gen", Heavy: true, Rule: "3 (thorough 8) types that are not supported in 9 kinds of containers, as type and as field, and 6 kinds of map keys",
			Enum: func(emit func(c []byte) bool) {
				for i := range refused {
					emit([]byte{byte(i >> 8), byte(i)})
				}
			},
			Check: checkRefused(refused),
			Show:  func(c []byte) string { return refused[int(c[0])<<8|int(c[1])].String() }},
		{Name: "omits", Timeout: 5 * time.Minute, Variant: "gen", Heavy: true, Rule: "5 (thorough 9) struct types in 4 kinds of fields that may be omitted when empty: the append method is refused or agrees",
			Enum: func(emit func(c []byte) bool) {
				for i := range omits {
					emit([]byte{byte(i >> 8), byte(i)})
				}
			},
			Check: checkMaybe(omits),
			Show:  func(c []byte) string { return omits[int(c[0])<<8|int(c[1])].String() }},
		fam("unexported", "structs with one or two of 9 fields, most of them unexported, for 7 option sets", gcUnexported()),
		fam("interfaces", "fields, elements and members of interface types with marshal methods: append methods", gcInterfaces()),
		fam("durations", "durations in fields, pointers, slices, maps and on their own: texts as time.ParseDuration reads them", gcDurations()),
		fam("options", "17 settings of the generator on 6 structs", gcOptions()),
	}
}
