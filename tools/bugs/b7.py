from common import *
GEN='''#!/bin/bash
# Generates methods for types.go beside this file with the njson command of the repository in the current directory
# and runs them with main.go.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
go build -o "$T/njson" ./cmd/njson || exit 3
# the generator looks for export data of packages in $GOPATH/pkg
PKG=$T/gopath/pkg/$(go env GOOS)_$(go env GOARCH)
go list -e -export -deps -f '{{if and (not .Standard) .Export}}{{.ImportPath}} {{.Export}}{{end}}' . ./unjson ./strjson ./numjson |
while read -r path file; do mkdir -p "$(dirname "$PKG/$path")"; cp "$file" "$PKG/$path.a"; done
mkdir "$T/demo" && cp "$D"/*.go "$T/demo/" && cd "$T/demo" || exit 3
mkdir "$T/types" && cp types.go "$T/types/" || exit 3
printf 'module demo\\n\\ngo 1.24\\n\\nrequire github.com/alxarch/njson v0.0.0\\n\\nreplace github.com/alxarch/njson => %s\\n' "$R" > go.mod
export GOPATH=$T/gopath
'''
RUN=GEN+'''"$T/njson" -p "$T/types" -w @FLAGS@ main || exit 1
cp "$T/types/main_njson.go" . || exit 1
timeout 200 go run .
'''
SAME=GEN+'''for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do
	"$T/njson" -p "$T/types" @FLAGS@ main | grep -v '^// Code generated' > "$T/out.$i" || exit 1
	cmp "$T/out.1" "$T/out.$i" || exit 1
done
'''
def gbug(id,prop,needs,breaks,edits,types,main,flags='',sh=RUN):
    extra={'types.go':types.lstrip('\n')}
    if main is not None: extra['main.go']=main.lstrip('\n')
    bug(id,prop,needs,breaks,edits,None,extra=extra,demosh=sh.replace('@FLAGS@',flags))
def gmain(body,imports=('github.com/alxarch/njson',)):
    return prog(body,imports)
A='internal/generator/append.go'; U='internal/generator/unmarshal.go'; G='internal/generator/generator.go'; O='internal/generator/options.go'
gbug('C25-cond','C25','a field reached through two embedded pointers','The nil checks of the embedded pointers are collected in a map, so that their order changes from run to run (and a check may come before the one of its parent).',
[(A,'''	cond := []string{}
''','''	cond := map[string]bool{}
'''),(A,'''			cond = append(cond, fmt.Sprintf("v%s != nil", path[:i+1]))
''','''			cond[fmt.Sprintf("v%s != nil", path[:i+1])] = true
'''),(A,'''		if %s {
			v := v%s
			%s
		}`, strings.Join(cond, " && "), path, code)
''','''		if %s {
			v := v%s
			%s
		}`, strings.Join(condList(cond), " && "), path, code)
'''),(A,'''// StructAppender returns the AppendJSON block code for a struct
''','''func condList(cond map[string]bool) (all []string) {
	for c := range cond {
		all = append(all, c)
	}
	return
}

// StructAppender returns the AppendJSON block code for a struct
''')],'''
package main

type Top struct {
	*Mid
	A int
}

type Mid struct {
	*Low
	B int
}

type Low struct {
	C, D, E, F, G, H int
}
''',None,sh=SAME)
gbug('C25-counter','C25','two types with slices, requested in another order','A variable of the generated code is numbered by a counter that runs over all types, so that the code of a type depends on the types requested before it.',
[(U,'''	s := *r
	for i := 0; values.Next() && 0 <= i && i < len(s) ; i++ {
		r := &s[i]
		n := n.With(values.ID())
		%s
	}
''','''	s%[3]d := *r
	for i := 0; values.Next() && 0 <= i && i < len(s%[3]d) ; i++ {
		r := &s%[3]d[i]
		n := n.With(values.ID())
		%[2]s
	}
'''),(U,'''`, t.Elem(), g.TypeUnmarshaler(t.Elem())).Import(njsonPkg)
''','''`, t.Elem(), g.TypeUnmarshaler(t.Elem()), g.nextVar()).Import(njsonPkg)
'''),(G,'''	test    bool
''','''	test    bool
	vars    int
'''),(U,'''// PointerUnmarshaler generates''','''func (g *Generator) nextVar() int {
	g.vars++
	return g.vars
}

// PointerUnmarshaler generates''')],'''
package main

type One struct {
	A []int
}

type Two struct {
	B []string
}
''',None,sh=GEN+'''method() { grep -v '^// Code generated' | sed -n '/^func (t \\*Two)/,/^}/p'; }
"$T/njson" -p "$T/types" -unmarshal main | method > "$T/all" || exit 1
"$T/njson" -p "$T/types" -unmarshal main Two | method > "$T/two" || exit 1
[ -s "$T/two" ] && cmp "$T/all" "$T/two"
''')
gbug('C26-ptrnew','C26','a target whose pointer field is already set and a document that sets only some fields behind the pointer','The generated unmarshal method replaces what a pointer field points to instead of filling it, so that fields that the document does not mention are lost.',
[(U,'''	*r = nil
case *r == nil:
	*r = new(%s)
	fallthrough
default:
	r := *r
''','''	*r = nil
default:
	*r = new(%s)
	r := *r
''')],'''
package main

type Top struct {
	P *Part
}

type Part struct {
	A, B int
}
''',gmain('''	t := Top{P: &Part{1, 2}}
	d := njson.Document{}
	n, _, err := d.Parse(`{"P":{"A":5}}`)
	if err != nil {
		fail(err)
	}
	if err := t.UnmarshalNodeJSON(n); err != nil {
		fail(err)
	}
	if *t.P != (Part{5, 2}) {
		fail(*t.P)
	}
'''))
gbug('C26-path','C26','a field behind two embedded pointers that are both nil','The generated unmarshal method allocates only the outermost of several embedded pointers and panics when the next one is nil.',
[(U,'''		for i := 0; i < last; i++ {
			f := &path[i]
''','''		for i := 0; i < last; i++ {
			f := &path[i]
			if len(code.Code) > 0 {
				break // allocated already
			}
''')],'''
package main

type Top struct {
	*Mid
	A int
}

type Mid struct {
	*Low
	B int
}

type Low struct {
	C int
}
''',gmain('''	t := Top{}
	d := njson.Document{}
	n, _, err := d.Parse(`{"A":1,"B":2,"C":3}`)
	if err != nil {
		fail(err)
	}
	if err := t.UnmarshalNodeJSON(n); err != nil {
		fail(err)
	}
	if t.A != 1 || t.B != 2 || t.C != 3 {
		fail(t)
	}
'''))
gbug('C26-both','C26','a field whose type has both UnmarshalJSON and UnmarshalText methods','The generated unmarshal method prefers UnmarshalText to UnmarshalJSON, unlike the reflective decoder.',
[(U,'''	case types.Implements(pt, typJSONUnmarshaler):
		return g.JSONUnmarshaler(t)
	case types.Implements(pt, typTextUnmarshaler):
		return g.TextUnmarshaler(t)
''','''	case types.Implements(pt, typTextUnmarshaler):
		return g.TextUnmarshaler(t)
	case types.Implements(pt, typJSONUnmarshaler):
		return g.JSONUnmarshaler(t)
''')],'''
package main

type Top struct {
	L Level
}

// Level is a number in JSON and a name in text.
type Level struct{ N int }

func (l *Level) UnmarshalJSON(b []byte) error {
	l.N = 0
	for _, c := range b {
		l.N = l.N*10 + int(c-'0')
	}
	return nil
}

func (l *Level) UnmarshalText(b []byte) error {
	l.N = len(b)
	return nil
}
''',gmain('''	t := Top{}
	d := njson.Document{}
	n, _, err := d.Parse(`{"L":42}`)
	if err != nil {
		fail(err)
	}
	if err := t.UnmarshalNodeJSON(n); err != nil {
		fail(err)
	}
	if t.L.N != 42 {
		fail(t)
	}
''')+'''
func (t *Top) AppendJSON(out []byte) ([]byte, error) { return out, nil }
''','-unmarshal')
gbug('C26-uint','C26','unsigned values above the largest int64','The generated append method writes large unsigned integers as negative numbers.',
[(A,'''			} else if info&types.IsUnsigned != 0 {
				return c.Println(`out = strconv.AppendUint(out, uint64(v), 10)`).Import(strconvPkg)
			} else if info&types.IsInteger != 0 {
''','''			} else if info&types.IsUnsigned != 0 && t.Kind() == types.Uint64 {
				return c.Println(`out = strconv.AppendUint(out, uint64(v), 10)`).Import(strconvPkg)
			} else if info&types.IsInteger != 0 {
''')],'''
package main

type Top struct {
	U uint
	V uint64
}
''',gmain('''	t := Top{1<<63 + 5, 1<<63 + 5}
	out, err := t.AppendJSON(nil)
	if err != nil || string(out) != `{"U":9223372036854775813,"V":9223372036854775813}` {
		fail(string(out), err)
	}
	d := njson.Document{}
	n, _, err := d.Parse(string(out))
	u := Top{}
	if err != nil || u.UnmarshalNodeJSON(n) != nil || u != t {
		fail(u)
	}
'''))
gbug('C26-mapfill','C26','a map that is already filled and an empty object','The generated unmarshal method makes a new map when the target is empty and clears it when the object has no members, so that entries are lost.',
[(U,'''	if *r == nil {
		*r = make(map[%[1]s]%[2]s, values.Len())
	}
''','''	if *r == nil || values.Len() == 0 {
		*r = make(map[%[1]s]%[2]s, values.Len())
	}
''')],'''
package main

type Top struct {
	M map[string]int
}
''',gmain('''	t := Top{M: map[string]int{"a": 1}}
	d := njson.Document{}
	n, _, err := d.Parse(`{"M":{}}`)
	if err != nil {
		fail(err)
	}
	if err := t.UnmarshalNodeJSON(n); err != nil {
		fail(err)
	}
	if len(t.M) != 1 {
		fail(t.M)
	}
'''))
gbug('C26-match','C26','a name filter and a field whose tag name does not match it','The name filter is applied to the name in JSON instead of the name of the field.',
[(O,'''	if ok = o.MatchField(name); !ok {
		return
	}
	if ok = !o.onlyExported''','''	if ok = !o.onlyExported'''),(O,'''	if ok = t.Name != "-"; !ok {
		return
	}
''','''	if ok = t.Name != "-"; !ok {
		return
	}
	if match := t.Name; match != "" {
		ok = o.MatchField(match)
	} else {
		ok = o.MatchField(name)
	}
	if !ok {
		return
	}
''')],'''
package main

type Top struct {
	PubA int `json:"x"`
	PrvB int `json:"Puby"`
}
''',gmain('''	t := Top{1, 2}
	out, err := t.AppendJSON(nil)
	if err != nil || string(out) != `{"x":1}` {
		fail(string(out), err)
	}
	d := njson.Document{}
	n, _, err := d.Parse(`{"x":5,"Puby":6}`)
	if err != nil || t.UnmarshalNodeJSON(n) != nil || t != (Top{5, 2}) {
		fail(t)
	}
'''),"-match '^Pub'")
