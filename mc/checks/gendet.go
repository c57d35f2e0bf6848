package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif/mc/core"
	"verif/mc/vmap"
)

// Gen is the code generator (package internal/generator, reached through a build overlay).
type Gen interface {
	AllStructs() []string
	WriteAppender(typ string) error
	WriteUnmarshaler(typ string) error
	Print(dump bool) (string, error)
	Filename() string
	Reset()
}

// GenOptions are the options of the generator.
type GenOptions struct {
	Tag, Case, Match, Omit, Append, Unmarshal string
	OmitEmpty, OnlyExported, OnlyTagged       bool
}

// Set by cmd/verifgen.
var (
	NewGenDir  func(dir, pkg string, o GenOptions) (Gen, error)
	NewGenFile func(name, src string, o GenOptions) (Gen, error)
)

func init() {
	core.Register(&core.Property{ID: "C25", Level: "model_checked", Families: gendetFamilies, Quick: 200, Thorough: 700,
		Assumptions: []string{
			"The sources of nondeterminism explored are the iteration orders of all maps ranged over in internal/generator and in github.com/alxarch/meta (a type-based build overlay rewrites those ranges); the standard library's packages go/* are taken to be deterministic.",
			"The header comment of a generated file carries the time of its making, which is left out of the comparison.",
		}})
}

// gdDecls are field declarations (or embedded types) of the struct types of a package.
var gdDecls = []string{
	"A int `json:\"a\"`",
	"B string",
	"C []Inner `json:\"c,omitempty\"`",
	"D map[string]float64 `json:\"a\"`", // same key as A
	"E *Inner",
	"T time.Time",
	"F interface{} `json:\"f,omitempty\"`",
	"Inner",
	"*Other",
	"Emb `json:\"emb\"`",
	"u uint8",
	"X string `json:\",raw\"`",
	"V url.Values `json:\"v\"`",
	"Dur time.Duration `json:\"-\"`",
	"*Up",
}

const gdPrelude = `
type Inner struct { A int; B string ` + "`json:\"bb\"`" + `; Z bool }
type Other struct { Y int ` + "`json:\"a\"`" + `; Z *bool; Q []string }
type Emb struct { One, Two, Three int }
`

const gdUp = `
type Up struct { U1 int; *Up2 }
type Up2 struct { U2 string; *Up3 }
type Up3 struct { U3 map[string]*Inner; B bool }
`

// A case is a list of struct types, each a list of declarations: types are separated by 255, files by 254.
func gdFiles(c []byte) (opt GenOptions, files map[string]string) {
	files = map[string]string{}
	if c[0]&1 != 0 {
		opt.Case = "snake"
	}
	if c[0]&2 != 0 {
		opt.OnlyTagged = true
	}
	if c[0]&4 != 0 {
		opt.OnlyExported, opt.OmitEmpty = true, false
	}
	n := 0
	for i, f := range strings.Split(string(c[1:]), "\xfe") {
		var b strings.Builder
		for _, typ := range strings.Split(f, "\xff") {
			fmt.Fprintf(&b, "type S%d struct {\n", n)
			for _, d := range []byte(typ) {
				b.WriteString("\t" + gdDecls[d] + "\n")
			}
			b.WriteString("}\n\n")
			n++
		}
		src := b.String()
		if i == 0 {
			src += gdPrelude
			if strings.IndexByte(string(c), 14) >= 0 {
				src += gdUp
			}
		}
		head := "package foo\n\n"
		if strings.Contains(src, "time.") {
			head += "import \"time\"\n"
		}
		if strings.Contains(src, "url.") {
			head += "import \"net/url\"\n"
		}
		files[fmt.Sprintf("%c%d.go", 'z'-i, i)] = head + src
	}
	return
}

func showGD(c []byte) string {
	opt, files := gdFiles(c)
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	s := fmt.Sprintf("%+v", opt)
	for _, n := range names {
		src := strings.Replace(strings.Replace(files[n], gdUp, "", 1), gdPrelude, "", 1)
		s += " | " + n + ": " + strings.Join(strings.Fields(src), " ")
	}
	return s
}

var gdStamp = regexp.MustCompile(`(?m)^// Code generated by njson on .*; DO NOT EDIT\.`)

// mapOrders runs f under all orders of map iteration with at most d steps other than to the least key, for d as large as the limit allows.
type mapOrders struct {
	prefix []int
	taken  []int
	arity  []int
}

func (o *mapOrders) choose(n int) int {
	i := len(o.taken)
	c := 0
	if i < len(o.prefix) {
		c = o.prefix[i]
	}
	if c >= n {
		c = n - 1
	}
	o.taken = append(o.taken, c)
	o.arity = append(o.arity, n)
	return c
}

func (o *mapOrders) run(prefix []int, f func() string) string {
	o.prefix, o.taken, o.arity = prefix, o.taken[:0], o.arity[:0]
	vmap.Choose = o.choose
	defer func() { vmap.Choose = nil }()
	return f()
}

// explore reports the first result that differs.
func (o *mapOrders) explore(t *core.T, limit int, f func() string, want string) (msg string, deviations int, complete bool) {
	runs := 0
	for d := 1; ; d++ {
		more := false
		var rec func(prefix []int, left int) bool
		rec = func(prefix []int, left int) bool {
			if runs >= limit || t.Late() {
				return false
			}
			runs++
			got := o.run(prefix, f)
			t.Runs(1)
			t.Steps(len(o.taken))
			if got != want {
				msg = firstDiff(want, got) + fmt.Sprintf(" (iteration choices %v of %v)", o.taken, o.arity)
				return false
			}
			taken, arity := append([]int(nil), o.taken...), append([]int(nil), o.arity...)
			for i := len(prefix); i < len(taken); i++ {
				for c := 1; c < arity[i]; c++ {
					if left == 0 {
						more = true
						break
					}
					if !rec(append(append([]int(nil), taken[:i]...), c), left-1) {
						return false
					}
				}
			}
			return true
		}
		if !rec(nil, d) {
			return msg, d - 1, false
		}
		if !more {
			return "", d, true
		}
		if runs*4 > limit {
			return "", d, false
		}
		runs = 0
	}
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d is %q in one run and %q in another", i+1, strings.TrimSpace(x), strings.TrimSpace(y))
		}
	}
	return "no difference"
}

// gdScratch is the worker's scratch directory.
func gdScratch(t *core.T) string {
	dir, _ := t.W["dir"].(string)
	if dir == "" {
		base := os.Getenv("VERIF_GEN")
		if base == "" {
			base = os.TempDir()
		}
		dir, _ = os.MkdirTemp(base, "gd")
		t.W["dir"] = dir
	}
	return dir
}

// gdGenerate does what cmd/njson does, for the directory.
func gdGenerate(dir string, opt GenOptions, methods string, dump bool) string {
	g, err := NewGenDir(dir, "foo", opt)
	if err != nil {
		return "error: " + err.Error()
	}
	types := g.AllStructs()
	if len(types) == 0 {
		return "no types"
	}
	g.Reset()
	for _, typ := range types {
		if strings.Contains(methods, "u") {
			if err := g.WriteUnmarshaler(typ); err != nil {
				return "error: " + err.Error()
			}
		}
		if strings.Contains(methods, "a") {
			if err := g.WriteAppender(typ); err != nil {
				return "error: " + err.Error()
			}
		}
	}
	out, err := g.Print(dump)
	if err != nil {
		return "error: " + err.Error()
	}
	return g.Filename() + "\n" + gdStamp.ReplaceAllString(out, "// header")
}

func checkGD(t *core.T, c []byte) {
	opt, files := gdFiles(c)
	dir := gdScratch(t)
	old, _ := filepath.Glob(dir + "/*.go")
	for _, f := range old {
		os.Remove(f)
	}
	for name, src := range files {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(src), 0o644); err != nil {
			panic(err)
		}
	}
	limit := 120
	if t.Tier == "thorough" {
		limit = 200
	}
	o, _ := t.W["orders"].(*mapOrders)
	if o == nil {
		o = &mapOrders{}
		t.W["orders"] = o
	}
	for _, methods := range []string{"a", "u", "au"} {
		if methods == "au" && len(c) < 4 {
			continue
		}
		dump := methods == "u"
		f := func() string { return gdGenerate(dir, opt, methods, dump) }
		want := o.run(nil, f)
		t.State(want)
		msg, d, complete := o.explore(t, limit, f, want)
		if msg != "" {
			t.Failf("methods %s: %s", methods, msg)
		}
		if strings.HasPrefix(want, "error:") {
			t.Failf("methods %s: %s", methods, want)
		}
		if complete {
			t.Count("all orders of all maps")
		} else {
			t.Count(fmt.Sprintf("all orders with at most %d steps off the sorted order", d))
		}
	}
	// the order in which types are requested
	if strings.IndexByte(string(c), 255) > 0 || strings.IndexByte(string(c), 254) > 0 {
		chunks := func(rev bool) string {
			g, err := NewGenDir(dir, "foo", opt)
			if err != nil {
				return err.Error()
			}
			types := g.AllStructs()
			if rev {
				for i, j := 0, len(types)-1; i < j; i, j = i+1, j-1 {
					types[i], types[j] = types[j], types[i]
				}
			}
			for _, typ := range types {
				if err := g.WriteUnmarshaler(typ); err != nil {
					return err.Error()
				}
				if err := g.WriteAppender(typ); err != nil {
					return err.Error()
				}
			}
			out, err := g.Print(false)
			if err != nil {
				return err.Error()
			}
			parts := strings.Split(gdStamp.ReplaceAllString(out, "// header"), "\nfunc ")
			for i := range parts {
				parts[i] = strings.TrimSpace(parts[i])
			}
			sort.Strings(parts[1:])
			return strings.Join(parts, "\nfunc ")
		}
		a, b := chunks(false), chunks(true)
		t.Runs(2)
		if a != b {
			t.Failf("types requested in the opposite order: %s", firstDiff(a, b))
		}
	}
	vmap.Choose = nil
}

func gendetFamilies(tier string) []core.Family {
	thorough := tier == "thorough"
	all := opRange(len(gdDecls))
	fam := func(name, rule string, enum func(emit func(c []byte) bool)) core.Family {
		return core.Family{Name: name, Timeout: 3 * time.Minute, Variant: "order", Heavy: true, Rule: rule, Enum: enum, Check: checkGD, Show: showGD}
	}
	distinct := func(s []byte) bool {
		for i := range s {
			for j := 0; j < i; j++ {
				if s[i] == s[j] {
					return false
				}
			}
		}
		return true
	}
	return []core.Family{
		gsFamily(tier),
		gwFamily(tier),
		fam("fields", "one struct type with every ordered list of up to 2 (thorough 3) different field declarations, for 8 option sets (quick: pairs for 2 of them)", func(emit func(c []byte) bool) {
			n := 2
			if thorough {
				n = 3
			}
			for o := byte(0); o < 8; o++ {
				seqs(all, 1, n, func(s []byte) bool {
					if !distinct(s) || o > 0 && len(s) > 2 || !thorough && o != 0 && o != 3 && len(s) > 1 {
						return true
					}
					return emit(append([]byte{o}, s...))
				})
			}
		}),
		fam("many", "one struct type with every list of 4 to 6 field declarations that follow each other", func(emit func(c []byte) bool) {
			for i := range gdDecls {
				for n := 4; n <= 6; n++ {
					c := []byte{0}
					for k := 0; k < n; k++ {
						c = append(c, byte((i+k)%len(gdDecls)))
					}
					emit(c)
				}
			}
		}),
		fam("files", "two or three struct types in one to three files, each with up to two of 4 (thorough 6) declarations", func(emit func(c []byte) bool) {
			ops := []byte{1, 8, 12, 14}
			if thorough {
				ops = []byte{0, 1, 5, 8, 12, 14}
			}
			var types [][]byte
			seqs(ops, 1, 2, func(s []byte) bool {
				if distinct(s) {
					types = append(types, append([]byte(nil), s...))
				}
				return true
			})
			for _, sep := range []byte{255, 254} {
				for _, a := range types {
					for _, b := range types {
						if !thorough && (len(a)+len(b) > 3 || len(a)+len(b) == 3 && sep == 254) {
							continue
						}
						emit([]byte(string([]byte{0}) + string(a) + string([]byte{sep}) + string(b)))
						if thorough || len(a) == 1 && len(b) == 1 {
							for _, x := range types {
								if len(a)+len(b)+len(x) > 3 {
									continue
								}
								for _, sep2 := range []byte{255, 254} {
									emit([]byte(string([]byte{0}) + string(a) + string([]byte{sep}) + string(b) + string([]byte{sep2}) + string(x)))
								}
							}
						}
					}
				}
			}
		}),
	}
}
