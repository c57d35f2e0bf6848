package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif/mc/core"
)

// Sessions with one generator: requests, printing and resetting in every order. After a reset (and in a new generator, made from the
// directory or from the file) the output has to be what a new generator gives for the requests since then that succeeded.

const gsSrc = "package foo\n\nimport (\n\t\"time\"\n\t\"net/url\"\n)\n\n" +
	"type T struct {\n\tAt time.Time `json:\"at\"`\n\tD time.Duration\n\tN *int\n}\n\n" +
	"type V struct {\n\tQ url.Values\n\tT []T `json:\",omitempty\"`\n}\n\n" +
	"type P struct {\n\tA int\n\tB string\n\tNext *P `json:\"next\"`\n}\n\n" +
	"type Bad struct {\n\tT time.Time\n\tC chan int\n}\n"

var gsTypes = []string{"T", "V", "P", "Bad", "Missing"}

// ops: 0..4 append methods, 5..9 unmarshal methods, 10 print, 11 dump, 12 reset
const gsPrint, gsDump, gsReset = 10, 11, 12

func gsOp(b byte) string {
	switch {
	case b < 5:
		return "append " + gsTypes[b]
	case b < 10:
		return "unmarshal " + gsTypes[b-5]
	case b == gsPrint:
		return "print"
	case b == gsDump:
		return "dump"
	case b == gsReset:
		return "reset"
	}
	return fmt.Sprint(b)
}

func showGS(c []byte) string {
	var s []string
	for _, b := range c[1:] {
		s = append(s, gsOp(b))
	}
	return []string{"dir: ", "file: "}[c[0]&1] + strings.Join(s, ", ")
}

func gsRequest(g Gen, b byte) error {
	if b < 5 {
		return g.WriteAppender(gsTypes[b])
	}
	return g.WriteUnmarshaler(gsTypes[b-5])
}

func gsNew(t *core.T, file bool) Gen {
	dir := filepath.Join(gdScratch(t), "session")
	if t.W["session"] == nil {
		t.W["session"] = true
		if os.Mkdir(dir, 0o755) != nil || os.WriteFile(filepath.Join(dir, "foo.go"), []byte(gsSrc), 0o644) != nil {
			panic("cannot write " + dir)
		}
	}
	var g Gen
	var err error
	if file {
		g, err = NewGenFile("foo.go", gsSrc, GenOptions{})
	} else {
		g, err = NewGenDir(dir, "foo", GenOptions{})
	}
	if err != nil {
		t.Failf("no generator: %v", err)
		return nil
	}
	return g
}

// gsFresh is what a new generator (made from the directory) prints for some requests.
func gsFresh(t *core.T, reqs string, dump bool) string {
	memo, _ := t.W["fresh"].(map[string]string)
	if memo == nil {
		memo = map[string]string{}
		t.W["fresh"] = memo
	}
	k := fmt.Sprint(reqs, dump)
	if s, ok := memo[k]; ok {
		return s
	}
	g := gsNew(t, false)
	if g == nil {
		return ""
	}
	for i := range reqs {
		if err := gsRequest(g, reqs[i]); err != nil {
			t.Failf("%s fails in a new generator: %v", gsOp(reqs[i]), err)
		}
	}
	s, err := g.Print(dump)
	if err != nil {
		t.Failf("printing [%s] fails in a new generator: %v", reqs, err)
	}
	memo[k] = gdStamp.ReplaceAllString(s, "// header")
	return memo[k]
}

func checkGS(t *core.T, c []byte) {
	g := gsNew(t, c[0]&1 != 0)
	if g == nil {
		return
	}
	if got := strings.Join(g.AllStructs(), " "); got != "T V P Bad" {
		t.Failf("structs are %q", got)
	}
	var reqs []byte
	printed := false
	for i, b := range c[1:] {
		switch b {
		case gsReset:
			g.Reset()
			reqs, printed = nil, false
		case gsPrint, gsDump:
			if printed { // what is printed again is not said anywhere
				return
			}
			s, err := g.Print(b == gsDump)
			if err != nil {
				t.Failf("step %d: %v", i, err)
				return
			}
			s = gdStamp.ReplaceAllString(s, "// header")
			t.State(s)
			if want := gsFresh(t, string(reqs), b == gsDump); s != want {
				t.Failf("step %d: the output differs from that of a new generator: %s", i, firstDiff(want, s))
			}
			printed = true
		default:
			err := gsRequest(g, b)
			if bad := b == 3 || b%5 == 4; (err != nil) != bad {
				t.Failf("step %d: %s: error %v", i, gsOp(b), err)
				return
			} else if !bad {
				reqs = append(reqs, b)
			}
		}
	}
}

func gsFamily(tier string) core.Family {
	n := 2
	if tier == "thorough" {
		n = 3
	}
	return core.Family{Name: "sessions", Timeout: 2 * time.Minute, Variant: "gen", Heavy: true,
		Rule: fmt.Sprintf("one generator, from the directory or from the file: every word of up to %d requests (5 types, of which one cannot be had and one not be appended, 2 methods), print or dump or neither, reset, every word of up to %d requests (3 types when the first word is long), print or dump, against a new generator", n, 2),
		Enum: func(emit func(c []byte) bool) {
			seqs(opRange(10), 0, n, func(a []byte) bool {
				for _, mid := range []string{"", "\x0a", "\x0b"} {
					ops := opRange(10)
					if len(a) > 1 {
						ops = []byte{1, 8, 7}
					}
					ok := seqs(ops, 0, 2, func(b []byte) bool {
						last := byte(gsPrint)
						if len(a)&1 != 0 {
							last = gsDump
						}
						w := string(a) + mid + "\x0c" + string(b) + string([]byte{last})
						return emit([]byte("\x00"+w)) && (len(a)+len(b) > 2 || emit([]byte("\x01"+w)))
					})
					if !ok {
						return false
					}
				}
				return true
			})
		},
		Check: checkGS, Show: showGS}
}

// Wide: packages with many types and types with many fields. What is generated follows the order of declaration.

func gwFiles(c []byte) (files map[string]string, types []string) {
	var n, m, k int
	fmt.Sscan(string(c), &n, &m, &k)
	files = map[string]string{}
	for f := 0; f < 3; f++ {
		b := "package foo\n\n"
		for i := f * n / 3; i < (f+1)*n/3; i++ {
			name := fmt.Sprintf("T%d", (i*7+3)%n)
			if n%7 == 0 {
				name = fmt.Sprintf("T%d", n-i)
			}
			types = append(types, name)
			b += "type " + name + " struct {\n"
			for j := 0; j < m; j++ {
				if k&1 != 0 && j == m/2 {
					b += "\t" + []string{"", "*"}[k>>1&1] + "Emb" + "\n"
				}
				b += fmt.Sprintf("\tF%d int `json:\"m%d\"`\n", m-j, j)
			}
			b += "}\n\n"
		}
		if f == 2 {
			b += "type Emb struct {\n\tZ int `json:\"e0\"`\n\tY int `json:\"e1\"`\n\tX string `json:\"e2\"`\n}\n"
			types = append(types, "Emb")
		}
		files[fmt.Sprintf("f%d.go", f)] = b
	}
	return
}

func checkGW(t *core.T, c []byte) {
	files, types := gwFiles(c)
	dir := filepath.Join(gdScratch(t), "wide")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	for name, src := range files {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(src), 0o644); err != nil {
			panic(err)
		}
	}
	var n, m, k int
	fmt.Sscan(string(c), &n, &m, &k)
	first := ""
	for run := 0; run < 2; run++ {
		g, err := NewGenDir(dir, "foo", GenOptions{})
		if err != nil {
			t.Failf("%v", err)
			return
		}
		all := g.AllStructs()
		if strings.Join(all, " ") != strings.Join(types, " ") {
			// files may be taken in any fixed order
			if len(all) != len(types) || !gwSameOrder(all, types, files) {
				t.Failf("the types are %v, declared are %v", all, types)
			}
		}
		out := ""
		for _, typ := range all {
			for _, method := range []func(string) error{g.WriteUnmarshaler, g.WriteAppender} {
				g.Reset()
				if err := method(typ); err != nil {
					t.Failf("%s: %v", typ, err)
					return
				}
				s, err := g.Print(false)
				if err != nil {
					t.Failf("%s: %v", typ, err)
					return
				}
				t.Steps(1)
				out += s
				// the members in order of declaration
				pos := 0
				var want []string
				for j := 0; j < m && typ != "Emb"; j++ {
					if k&1 != 0 && j == m/2 {
						want = append(want, "e0", "e1", "e2")
					}
					want = append(want, fmt.Sprint("m", j))
				}
				for _, w := range want {
					rx := gwMember(w)
					at := rx.FindStringIndex(s[pos:])
					if at == nil {
						t.Failf("%s: member %s is not handled, or not after the ones declared before it", typ, w)
						return
					}
					pos += at[1]
				}
			}
		}
		out = gdStamp.ReplaceAllString(out, "// header")
		if run == 0 {
			first = out
			t.State(out)
		} else if out != first {
			t.Failf("another run: %s", firstDiff(first, out))
		}
	}
}

// gwMember finds a member's name as the generated code may write it.
func gwMember(name string) *regexp.Regexp { return regexp.MustCompile("\\b" + name + "\\b") }

// gwSameOrder checks that the types of each file are listed together in order of declaration.
func gwSameOrder(all, types []string, files map[string]string) bool {
	at := map[string]int{}
	for i, typ := range all {
		at[typ] = i
	}
	for _, src := range files {
		last := -1
		for _, typ := range types {
			if strings.Contains(src, "type "+typ+" ") {
				i, ok := at[typ]
				if !ok || last >= 0 && i != last+1 {
					return false
				}
				last = i
			}
		}
	}
	return true
}

func gwFamily(tier string) core.Family {
	sizes := [][2]int{{1, 10}, {1, 11}, {1, 13}, {2, 33}, {9, 3}, {10, 2}, {11, 2}, {13, 1}, {14, 2}, {33, 1}, {49, 1}}
	if tier == "thorough" {
		sizes = append(sizes, [][2]int{{1, 64}, {1, 129}, {1, 300}, {100, 1}, {101, 12}, {300, 1}}...)
	}
	return core.Family{Name: "wide", Timeout: 3 * time.Minute, Variant: "gen", Heavy: true,
		Rule: "packages with up to 49 (thorough 300) types in three files and types with up to 33 (thorough 300) fields, named in other orders than declared, with and without an embedded struct in the middle: types and members in order of declaration",
		Enum: func(emit func(c []byte) bool) {
			for _, s := range sizes {
				for _, k := range []int{0, 1, 3} {
					emit([]byte(fmt.Sprintf("%d %d %d", s[0], s[1], k)))
				}
			}
		}, Check: checkGW, Show: func(c []byte) string { return "types, fields, embedding = " + string(c) }}
}
