package checks

import (
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/alxarch/njson"

	"verif/mc/core"
	"verif/mc/model"
)

// mnode is a node of the reference tree. Identity matters: a handle denotes an mnode.
type mnode struct {
	kind byte
	raw  string
	keys []string
	kids []*mnode
	free bool // built or parsed on its own and never placed
	doc  int
}

func (m *mnode) val() *model.Val {
	if m == nil {
		return nil
	}
	v := &model.Val{Kind: m.kind, Raw: m.raw}
	if m.kind == model.Object || m.kind == model.Array {
		v.Keys = append(v.Keys, m.keys...)
		for _, k := range m.kids {
			v.Vals = append(v.Vals, k.val())
		}
	}
	return v
}

func (m *mnode) contains(x *mnode) bool {
	if m == x {
		return true
	}
	for _, k := range m.kids {
		if k.contains(x) {
			return true
		}
	}
	return false
}

func (m *mnode) copyTo(doc int) *mnode {
	c := &mnode{kind: m.kind, raw: m.raw, doc: doc}
	c.keys = append(c.keys, m.keys...)
	for _, k := range m.kids {
		c.kids = append(c.kids, k.copyTo(doc))
	}
	return c
}

func fromVal(v *model.Val, doc int) *mnode {
	m := &mnode{kind: v.Kind, raw: v.Raw, doc: doc}
	m.keys = append(m.keys, v.Keys...)
	for _, k := range v.Vals {
		m.kids = append(m.kids, fromVal(k, doc))
	}
	return m
}

// mdoc is a reference document: its root is the first value created since the last reset.
type mdoc struct {
	root  *mnode
	empty bool
}

// handle pairs a real handle with what it denotes (nil: no value).
type handle struct {
	n    njson.Node
	m    *mnode
	name string
}

// world is the system under exploration: real documents and their models side by side.
type world struct {
	docs  []*njson.Document
	mdocs []mdoc
	h     []handle
	log   []string
	quiet bool
	pool  njson.Pool
}

func newWorld(docs ...*njson.Document) *world {
	w := &world{}
	for _, d := range docs {
		w.docs = append(w.docs, d)
		w.mdocs = append(w.mdocs, mdoc{empty: true})
	}
	return w
}

func (w *world) logf(f string, a ...interface{}) {
	if !w.quiet {
		w.log = append(w.log, fmt.Sprintf(f, a...))
	}
}

// created registers the model of a new free-standing value of a document.
func (w *world) created(doc int, m *mnode) *mnode {
	m.doc = doc
	m.free = true
	if w.mdocs[doc].empty {
		w.mdocs[doc] = mdoc{root: m}
		m.free = false // the root is never moved
	}
	return m
}

func (w *world) add(name string, n njson.Node, m *mnode) int {
	w.h = append(w.h, handle{n, m, name})
	return len(w.h) - 1
}

func (w *world) parse(doc int, name, s string) int {
	n, _, err := w.docs[doc].Parse(s)
	if err != nil {
		panic(fmt.Sprintf("parsing %q: %v", s, err))
	}
	v, _, _ := model.Parse(s)
	return w.add(name, n, w.created(doc, fromVal(v, doc)))
}

func (w *world) build(doc int, name, what string) int {
	n, m := buildNode(w.docs[doc], what)
	return w.add(name, n, w.created(doc, m))
}

// buildNode makes a free-standing value: "[]", "{}", or a scalar text.
func buildNode(d *njson.Document, what string) (njson.Node, *mnode) {
	switch {
	case what == "[]":
		return d.Array(), &mnode{kind: model.Array}
	case what == "{}":
		return d.Object(), &mnode{kind: model.Object}
	case what == "true":
		return d.True(), &mnode{kind: model.Bool, raw: "true"}
	case what == "false":
		return d.False(), &mnode{kind: model.Bool, raw: "false"}
	case what == "null":
		return d.Null(), &mnode{kind: model.Null, raw: "null"}
	case what[0] == '"':
		s := what[1 : len(what)-1]
		return d.Text(s), &mnode{kind: model.String, raw: s}
	default:
		var f float64
		fmt.Sscan(what, &f)
		return d.Number(f), &mnode{kind: model.Number, raw: what}
	}
}

// sub adds a handle for a member of another handle's value.
func (w *world) sub(of int, step interface{}) int {
	p := w.h[of]
	var n njson.Node
	var m *mnode
	switch s := step.(type) {
	case string:
		n = p.n.Get(s)
		m = p.m.get(s)
	case int:
		n = p.n.Index(s)
		m = p.m.at(s)
	}
	return w.add(fmt.Sprintf("%s.%v", p.name, step), n, m)
}

func (m *mnode) get(k string) *mnode {
	if m != nil && m.kind == model.Object {
		for i, x := range m.keys {
			if x == k {
				return m.kids[i]
			}
		}
	}
	return nil
}

func (m *mnode) at(i int) *mnode {
	if m != nil && m.kind == model.Array && 0 <= i && i < len(m.kids) {
		return m.kids[i]
	}
	return nil
}

// place is the model of inserting src under dst: the node to link, or nil.
func (w *world) place(dst, src *mnode) *mnode {
	if src == nil {
		return nil
	}
	if src.doc == dst.doc && src.free && !src.contains(dst) {
		src.free = false
		return src
	}
	return src.copyTo(dst.doc)
}

// ---- operations on (real, model) pairs

func (w *world) set(d, s int, key string) {
	w.logf("%s.Set(%q, %s)", w.h[d].name, key, w.h[s].name)
	w.h[d].n.Set(key, w.h[s].n)
	m := w.h[d].m
	if m == nil || m.kind != model.Object {
		return
	}
	x := w.place(m, w.h[s].m)
	if x == nil {
		return
	}
	for i, k := range m.keys {
		if k == key {
			m.kids[i] = x
			return
		}
	}
	m.keys = append(m.keys, key)
	m.kids = append(m.kids, x)
}

func (w *world) appendOp(d int, srcs ...int) {
	var ns []njson.Node
	names := ""
	for _, s := range srcs {
		ns = append(ns, w.h[s].n)
		names += " " + w.h[s].name
	}
	w.logf("%s.Append(%s)", w.h[d].name, names)
	m := w.h[d].m
	if m != nil && m.kind == model.Array {
		var add []*mnode
		for _, s := range srcs {
			if x := w.place(m, w.h[s].m); x != nil {
				add = append(add, x)
			}
		}
		m.kids = append(m.kids, add...)
		for range add {
			m.keys = append(m.keys, "")
		}
	}
	w.h[d].n.Append(ns...)
}

func (w *world) replace(d, i, s int) {
	w.logf("%s.Replace(%d, %s)", w.h[d].name, i, w.h[s].name)
	w.h[d].n.Replace(i, w.h[s].n)
	m := w.h[d].m
	if m != nil && m.kind == model.Array && 0 <= i && i < len(m.kids) {
		if x := w.place(m, w.h[s].m); x != nil {
			m.kids[i] = x
		}
	}
}

func (w *world) slice(d, i, j int) {
	w.logf("%s.Slice(%d, %d)", w.h[d].name, i, j)
	w.h[d].n.Slice(i, j)
	m := w.h[d].m
	if m != nil && m.kind == model.Array && 0 <= i && i < j && j <= len(m.kids) {
		m.kids = append([]*mnode(nil), m.kids[i:j]...)
		m.keys = append([]string(nil), m.keys[i:j]...)
	}
}

func (w *world) remove(d, i int) {
	w.logf("%s.Remove(%d)", w.h[d].name, i)
	w.h[d].n.Remove(i)
	m := w.h[d].m
	if m != nil && m.kind == model.Array && 0 <= i && i < len(m.kids) {
		m.kids = append(append([]*mnode(nil), m.kids[:i]...), m.kids[i+1:]...)
		m.keys = append(append([]string(nil), m.keys[:i]...), m.keys[i+1:]...)
	}
}

// cut removes member i of an object, either moving the last member into the gap or closing it.
func (m *mnode) cut(i int, swap bool) {
	l := len(m.kids) - 1
	kids := append([]*mnode(nil), m.kids...)
	keys := append([]string(nil), m.keys...)
	if swap {
		kids[i], keys[i] = kids[l], keys[l]
	} else {
		copy(kids[i:], kids[i+1:])
		copy(keys[i:], keys[i+1:])
	}
	m.kids, m.keys = kids[:l], keys[:l]
}

// deletion performs a model deletion; both orders of the remaining members are acceptable, whichever the
// real document shows (for all objects touched alike).
func (w *world) deletion(d int, f func(m *mnode, swap bool)) {
	m := w.h[d].m
	if m == nil {
		return
	}
	type saved struct {
		m    *mnode
		keys []string
		kids []*mnode
	}
	var all []saved
	seen := map[*mnode]bool{}
	var walk func(x *mnode)
	walk = func(x *mnode) {
		if seen[x] {
			return
		}
		seen[x] = true
		all = append(all, saved{x, x.keys, x.kids})
		for _, k := range x.kids {
			walk(k)
		}
	}
	walk(m)
	f(m, true)
	if diffNode(w.h[d].n, m.val(), false) == "" {
		return
	}
	for _, s := range all {
		s.m.keys, s.m.kids = s.keys, s.kids
	}
	f(m, false)
	if diffNode(w.h[d].n, m.val(), false) == "" {
		return
	}
	for _, s := range all {
		s.m.keys, s.m.kids = s.keys, s.kids
	}
	f(m, true)
}

func (w *world) del(d int, key string) {
	w.logf("%s.Del(%q)", w.h[d].name, key)
	w.h[d].n.Del(key)
	w.deletion(d, func(m *mnode, swap bool) {
		if m.kind != model.Object {
			return
		}
		for i, k := range m.keys {
			if k == key {
				m.cut(i, swap)
				return
			}
		}
	})
}

func (w *world) strip(d int, key string) {
	w.logf("%s.Strip(%q)", w.h[d].name, key)
	w.h[d].n.Strip(key)
	w.deletion(d, func(m *mnode, swap bool) { stripModel(m, key, swap) })
}

func stripModel(m *mnode, key string, swap bool) {
	if m.kind == model.Object {
		for i := 0; i < len(m.keys); {
			if m.keys[i] == key {
				m.cut(i, swap)
			} else {
				i++
			}
		}
	}
	for _, k := range m.kids {
		stripModel(k, key, swap)
	}
}

var scalarSets = []struct {
	name string
	f    func(n njson.Node)
	kind byte
	raw  string
}{
	{"SetInt(-7)", func(n njson.Node) { n.SetInt(-7) }, model.Number, "-7"},
	{"SetString(s)", func(n njson.Node) { n.SetString("s") }, model.String, "s"},
	{"SetNull()", func(n njson.Node) { n.SetNull() }, model.Null, "null"},
	{"SetUint(8)", func(n njson.Node) { n.SetUint(8) }, model.Number, "8"},
	{"SetFloat(2.5)", func(n njson.Node) { n.SetFloat(2.5) }, model.Number, "2.5"},
	{"SetTrue()", func(n njson.Node) { n.SetTrue() }, model.Bool, "true"},
	{"SetFalse()", func(n njson.Node) { n.SetFalse() }, model.Bool, "false"},
	{"SetStringHTML(h)", func(n njson.Node) { n.SetStringHTML("h") }, model.String, "h"},
	{"SetStringRaw(r)", func(n njson.Node) { n.SetStringRaw("r\\n") }, model.String, "r\\n"},
}

func (w *world) scalar(d, k int) {
	s := scalarSets[k]
	w.logf("%s.%s", w.h[d].name, s.name)
	s.f(w.h[d].n)
	if m := w.h[d].m; m != nil {
		m.kind, m.raw, m.keys, m.kids = s.kind, s.raw, nil, nil
	}
}

// nav re-points handle r at a member of d.
func (w *world) nav(r, d int, step interface{}) {
	p := w.h[d]
	switch s := step.(type) {
	case string:
		w.h[r].n, w.h[r].m = p.n.Get(s), p.m.get(s)
	case int:
		if s < 0 && p.m != nil && p.m.kind == model.Array {
			s += len(p.m.kids)
		}
		w.h[r].n, w.h[r].m = p.n.Index(s), p.m.at(s)
	}
	w.logf("%s = %s.%v", w.h[r].name, p.name, step)
}

// verify compares every handle and every document root with the model, and checks that no two places share a node.
func (w *world) verify(t *core.T) {
	ids := map[[2]uint]*mnode{}
	back := map[*mnode]uint{}
	var walk func(n njson.Node, m *mnode, where string)
	walk = func(n njson.Node, m *mnode, where string) {
		if m == nil {
			return
		}
		id := n.ID()
		k := [2]uint{uint(m.doc), id}
		if o, ok := ids[k]; ok && o != m {
			t.Failf("%s: %s shares its storage with another place (after %s)", where, clip(m.val().Compact()), strings.Join(w.log, "; "))
		}
		if o, ok := back[m]; ok && o != id {
			t.Failf("%s: %s is not the value its handle denotes (after %s)", where, clip(m.val().Compact()), strings.Join(w.log, "; "))
		}
		if _, ok := back[m]; ok {
			return
		}
		ids[k], back[m] = m, id
		it := n.Values()
		for i := 0; it.Next() && i < len(m.kids); i++ {
			walk(it.Value(), m.kids[i], where)
		}
	}
	for i := range w.docs {
		m := w.mdocs[i].root
		n := w.docs[i].Root()
		if d := diffNode(n, m.val(), false); d != "" {
			t.Failf("document %d: %s; model %s (after %s)", i, d, m.str(), strings.Join(w.log, "; "))
		}
		b, err := w.docs[i].AppendJSON(nil)
		if m == nil {
			if err == nil {
				t.Failf("empty document %d serialises as %q (after %s)", i, b, strings.Join(w.log, "; "))
			}
		} else if err != nil || string(b) != m.str() {
			t.Failf("document %d serialises as %q, %v; model %s (after %s)", i, clip(string(b)), err, m.str(), strings.Join(w.log, "; "))
		}
		walk(n, m, fmt.Sprintf("document %d", i))
	}
	var st []byte
	for _, h := range w.h {
		if d := diffNode(h.n, h.m.val(), false); d != "" {
			t.Failf("handle %s: %s; model %s (after %s)", h.name, d, h.m.str(), strings.Join(w.log, "; "))
		}
		b, err := h.n.AppendJSON(nil)
		if h.m == nil {
			if err == nil {
				t.Failf("handle %s without value serialises as %q (after %s)", h.name, b, strings.Join(w.log, "; "))
			}
			st = append(st, '~')
			continue
		}
		if err != nil || string(b) != h.m.str() {
			t.Failf("handle %s serialises as %q, %v; model %s (after %s)", h.name, clip(string(b)), err, h.m.str(), strings.Join(w.log, "; "))
		}
		if ty, want := h.n.Type(), typeOf(h.m.kind); ty != want {
			t.Failf("handle %s: kind %v want %v", h.name, ty, want)
		}
		if raw, ty := h.n.Data(); (h.m.kind != model.Object && h.m.kind != model.Array && raw != h.m.raw) || ty != typeOf(h.m.kind) {
			t.Failf("handle %s: data %q %v, want %q (after %s)", h.name, raw, ty, h.m.raw, strings.Join(w.log, "; "))
		}
		walk(h.n, h.m, "handle "+h.name)
		st = append(st, b...)
		st = append(st, '|')
	}
	t.StateBytes(st)
}

func (m *mnode) str() string {
	if m == nil {
		return "(none)"
	}
	return m.val().Compact()
}

// op is one transition.
type op struct {
	name string
	f    func(w *world)
}

// scenario is a starting world and its alphabet.
type scenario struct {
	name string
	init func(w *world)
	ops  func(w *world) []op
}

// histories enumerates all op sequences of length 1..depth for each scenario.
func histFamily(name, rule string, scs []scenario, depth func(sc int) int, mkdocs func(t *core.T) []*njson.Document) core.Family {
	tables := make([][]op, len(scs))
	quietWorld := func(docs []*njson.Document) *world { w := newWorld(docs...); w.quiet = true; return w }
	for i, sc := range scs {
		w := quietWorld([]*njson.Document{{}, {}})
		sc.init(w)
		tables[i] = sc.ops(w)
	}
	run := func(t *core.T, c []byte, quiet bool) *world {
		sc := scs[c[0]]
		w := newWorld(mkdocs(t)...)
		w.quiet = quiet
		sc.init(w)
		for p := 1; p+1 < len(c); p += 2 {
			k := int(binary.BigEndian.Uint16(c[p:]))
			tables[c[0]][k].f(w)
			t.Steps(1)
		}
		return w
	}
	return core.Family{
		Name: name, Rule: rule,
		Enum: func(emit func([]byte) bool) {
			for si := range scs {
				n := len(tables[si])
				maxd := depth(si)
				for d := 1; d <= maxd; d++ {
					idx := make([]int, d)
					c := make([]byte, 1+2*d)
					c[0] = byte(si)
					for {
						for i, x := range idx {
							binary.BigEndian.PutUint16(c[1+2*i:], uint16(x))
						}
						if !emit(c) {
							return
						}
						i := d - 1
						for ; i >= 0; i-- {
							if idx[i]++; idx[i] < n {
								break
							}
							idx[i] = 0
						}
						if i < 0 {
							break
						}
					}
				}
			}
		},
		Check: func(t *core.T, c []byte) {
			w := run(t, c, true)
			func() {
				defer func() {
					if e := recover(); e != nil {
						// tell it with the log
						w2 := run(t, c, false)
						w2.verify(t)
						panic(e)
					}
				}()
				w.verify(t)
			}()
		},
		Show: func(c []byte) string {
			s := scs[c[0]].name + ":"
			for p := 1; p+1 < len(c); p += 2 {
				s += " " + tables[c[0]][binary.BigEndian.Uint16(c[p:])].name + ";"
			}
			return s
		},
	}
}

func freshDocs(t *core.T) []*njson.Document { return []*njson.Document{{}, {}} }

// usedDocs are documents with storage left from earlier, larger content.
func usedDocs(t *core.T) []*njson.Document {
	var out []*njson.Document
	for i := 0; i < 2; i++ {
		d := &njson.Document{}
		for _, s := range []string{`[[1,2,3],{"p":1,"q":2,"r":3},"x",[[],[4]],{"s":{"t":[5]}}]`, `{"u":[6,7,8,9],"v":{"w":1}}`} {
			d.Parse(s)
			o := d.Object()
			a := d.Array()
			a.Append(d.True(), d.Null(), d.False())
			o.Set("y", a)
		}
		d.Reset()
		out = append(out, d)
	}
	return out
}

func opName(names []handle, f string, d int, rest string) string {
	return names[d].name + "." + f + "(" + rest + ")"
}

// editOps is the wide alphabet: every edit with every handle as destination and source.
func editOps(w *world, keys []string, inserts bool) (out []op) {
	nh := len(w.h)
	add := func(name string, f func(w *world)) { out = append(out, op{name, f}) }
	for d := 0; d < nh; d++ {
		d := d
		if inserts {
			for s := 0; s < nh; s++ {
				s := s
				for _, k := range keys {
					k := k
					add(opName(w.h, "Set", d, k+","+w.h[s].name), func(w *world) { w.set(d, s, k) })
				}
				add(opName(w.h, "Append", d, w.h[s].name), func(w *world) { w.appendOp(d, s) })
				for _, i := range []int{0, 1} {
					i := i
					add(opName(w.h, "Replace", d, fmt.Sprint(i)+","+w.h[s].name), func(w *world) { w.replace(d, i, s) })
				}
			}
		}
		for _, k := range keys {
			k := k
			add(opName(w.h, "Del", d, k), func(w *world) { w.del(d, k) })
			add(opName(w.h, "Strip", d, k), func(w *world) { w.strip(d, k) })
		}
		for _, ij := range [][2]int{{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}, {0, 4}, {-1, 1}, {2, 1}} {
			ij := ij
			add(opName(w.h, "Slice", d, fmt.Sprint(ij)), func(w *world) { w.slice(d, ij[0], ij[1]) })
		}
		for _, i := range []int{0, 1, 2, 3, -1} {
			i := i
			add(opName(w.h, "Remove", d, fmt.Sprint(i)), func(w *world) { w.remove(d, i) })
		}
		for k := range scalarSets {
			k := k
			add(w.h[d].name+"."+scalarSets[k].name, func(w *world) { w.scalar(d, k) })
		}
	}
	return
}
