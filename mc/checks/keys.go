package checks

import (
	"fmt"
	"strconv"

	"github.com/alxarch/njson"

	"verif/mc/core"
	"verif/mc/model"
)

// keyPairEnum enumerates pairs of different keys that are nearly the same: every length up to n (and a few beyond),
// every position, every kind of difference.
func keyPairEnum(n int) func(emit func([]byte) bool) {
	return func(emit func([]byte) bool) {
		var ls []int
		for l := 0; l <= n; l++ {
			ls = append(ls, l)
		}
		ls = append(ls, 63, 64, 65, 127, 128, 129, 255, 256, 257)
		for _, l := range ls {
			for p := 0; p < l; p++ {
				for _, k := range "xcu" {
					if !emit([]byte(fmt.Sprintf("%d %d %c", l, p, k))) {
						return
					}
				}
			}
			for _, k := range "ltsz" {
				if !emit([]byte(fmt.Sprintf("%d 0 %c", l, k))) {
					return
				}
			}
		}
	}
}

func keyPair(c []byte) (string, string) {
	var l, p int
	var k rune
	fmt.Sscanf(string(c), "%d %d %c", &l, &p, &k)
	b := make([]byte, l)
	for i := range b {
		b[i] = 'a' + byte(i%7)
	}
	x := string(b)
	switch k {
	case 'x':
		b[p] ^= 1
		if b[p] < 'a' {
			b[p] = 'z'
		}
	case 'c':
		b[p] ^= 0x20
	case 'u':
		return x[:p] + "é" + x[p+1:], x[:p] + "è" + x[p+1:]
	case 'l':
		return x, x + "a"
	case 't':
		return x, x + x + "."
	case 's':
		return x, x + " "
	case 'z':
		return x + "1", x + "01"
	}
	return x, string(b)
}

// keyEdit runs every edit by name on objects that hold one, the other or both of the keys.
func keyEdit(t *core.T, c []byte) {
	x, y := keyPair(c)
	qx, qy := strconv.Quote(x), strconv.Quote(y)
	for _, s := range []string{
		`{` + qx + `:1,` + qy + `:[{` + qx + `:2,"z":0,` + qy + `:3}]}`,
		`{` + qy + `:{` + qx + `:0},"z":[],` + qx + `:5}`,
		`{` + qx + `:1}`,
		`{` + qy + `:[1],` + qy + `:[2]}`,
	} {
		for _, k := range []string{x, y} {
			for op := 0; op < 6; op++ {
				t.Steps(1)
				w := newWorld(&njson.Document{}, &njson.Document{})
				w.quiet = true
				r := w.parse(0, "R", s)
				f := w.build(0, "F", "9")
				switch op {
				case 0:
					w.set(r, f, k)
				case 1:
					w.del(r, k)
				case 2:
					w.strip(r, k)
				case 3:
					w.nav(f, r, k)
					w.scalar(f, 1)
				case 4:
					w.del(r, k)
					w.set(r, f, k)
				case 5:
					w.set(r, f, k)
					w.del(r, k)
				}
				w.verify(t)
			}
		}
	}
}

// keyRead reads by every such name and path.
func keyRead(t *core.T, c []byte) {
	x, y := keyPair(c)
	qx, qy := strconv.Quote(x), strconv.Quote(y)
	paths := [][]string{{x}, {y}, {x, y}, {y, x}, {"z", "0", x}, {"z", "0", y}, {"z", x}}
	for _, s := range []string{
		`{` + qx + `:1,"z":[{` + qx + `:2,"z":0,` + qy + `:3}],` + qy + `:{` + qx + `:7}}`,
		`{` + qy + `:{` + qx + `:0},"z":[{}]}`,
		`{` + qx + `:{` + qy + `:1}}`,
	} {
		var d njson.Document
		n, _, err := d.Parse(s)
		if err != nil {
			t.Failf("parsing %s: %v", s, err)
			return
		}
		v, _, _ := model.Parse(s)
		readAll(t, &d, n, v, paths, []string{x, y}, s)
	}
}
