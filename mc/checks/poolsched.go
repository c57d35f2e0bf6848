package checks

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"

	"verif/mc/core"
	"verif/mc/vsync"
)

func init() {
	core.Register(&core.Property{ID: "C22", Level: "model_checked", Families: poolFamilies, Quick: 200, Thorough: 650,
		Assumptions: []string{
			"Scheduling points are the operations of packages sync and sync/atomic, which a build overlay replaces, and the calls of user-defined marshal methods and writers; between them threads run without interruption. This loses nothing for executions without data races, and every explored schedule runs under the race detector with exactly the happens-before edges of the real primitives.",
			"A pool may hand out any object it holds, or none; an object dropped by the pool is one it never hands out again.",
			"The stand-in for package sync is checked by the family 'scheduler' of C21.",
		}})
}

// pdYield decodes itself and lets other threads run while it holds data of the decoding call.
type pdYield struct{ s string }

func (y *pdYield) UnmarshalNodeJSON(n njson.Node) error {
	vsync.Yield()
	b, err := n.AppendJSON(nil)
	y.s = string(b)
	vsync.Yield()
	if c, err2 := n.AppendJSON(nil); err2 != nil || string(c) != y.s {
		vsync.Failf("the value under decoding changed from %s to %s (%v)", y.s, c, err2)
	}
	return err
}

// pdJSON does the same with a plain json.Unmarshaler.
type pdJSON struct{ s string }

func (y *pdJSON) UnmarshalJSON(b []byte) error {
	y.s = string(b)
	vsync.Yield()
	if string(b) != y.s {
		vsync.Failf("the data under decoding changed from %s to %s", y.s, b)
	}
	return nil
}

type pdText struct{ s string }

func (y *pdText) UnmarshalText(b []byte) error {
	y.s = string(b)
	vsync.Yield()
	if string(b) != y.s {
		vsync.Failf("the text under decoding changed from %s to %s", y.s, b)
	}
	return nil
}

// pdNest decodes by calling the package again and by borrowing a document itself.
type pdNest struct{ s string }

func (y *pdNest) UnmarshalNodeJSON(n njson.Node) error {
	var in map[string]string
	b, err := n.AppendJSON(nil)
	if err != nil {
		return err
	}
	if err := unjson.Unmarshal(b, &in); err != nil {
		return err
	}
	d := njson.Blank()
	m, _, err := d.Parse(`["` + in["k"] + `"]`)
	if err != nil {
		return err
	}
	y.s = m.Index(0).Unescaped()
	d.Close()
	if c, err := n.AppendJSON(nil); err != nil || string(c) != string(b) {
		vsync.Failf("the value under decoding changed from %s to %s (%v)", b, c, err)
	}
	return nil
}

type pdTarget struct {
	A int      `json:"a"`
	Y *pdYield `json:"y"`
	J *pdJSON  `json:"j"`
	T *pdText  `json:"t"`
	N *pdNest  `json:"n"`
}

// pdAppend is an Appender that lets others run and may fail.
type pdAppend struct {
	s    string
	fail bool
}

func (a pdAppend) AppendJSON(b []byte) ([]byte, error) {
	b = append(b, a.s[:1]...)
	vsync.Yield()
	b = append(b, a.s[1:]...)
	if a.fail {
		return nil, errors.New("append")
	}
	return b, nil
}

// pdWriter takes its time over each write.
type pdWriter struct {
	got  strings.Builder
	fail bool
}

func (w *pdWriter) Write(b []byte) (int, error) {
	before := string(b)
	vsync.Yield()
	if string(b) != before {
		vsync.Failf("the bytes being written changed from %q to %q", before, b)
	}
	w.got.Write(b)
	if w.fail {
		return len(b), errors.New("write")
	}
	return len(b), nil
}

var pdOps = []struct{ name, what string }{
	{"B", "take"}, {"P", "parse"}, {"C", "close first"}, {"D", "close last"},
	{"U", "Unmarshal"}, {"X", "Unmarshal malformed"}, {"Y", "Unmarshal misfit"}, {"Z", "Unmarshal trailing"},
	{"N", "Unmarshal nested"}, {"J", "PrintJSON"}, {"A", "PrintJSON failing value"}, {"F", "PrintJSON failing writer"},
	{"W", "WrapUnmarshalJSON"}, {"T", "WrapUnmarshalText"}, {"E", "edit"}, {"O", "Unmarshal into any"}, {"G", "parse much"}, {"H", "Unmarshal much"},
}

const (
	pdTake = iota
	pdParse
	pdCloseFirst
	pdCloseLast
	pdUnmarshal
	pdMalformed
	pdMisfit
	pdTrailing
	pdNested
	pdPrint
	pdPrintFail
	pdPrintWFail
	pdWrapJSON
	pdWrapText
	pdEdit
	pdAny
	pdBig
	pdBigCall
)

// pdBigText is a text with more nodes and bytes than documents and buffers have room for at first.
func pdBigText(x string, n int) string {
	var b strings.Builder
	b.WriteString("[")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, `"%s.%d",`, x, i)
	}
	b.WriteString("[]]")
	return b.String()
}

// pdHeld is a document a thread holds with what it should contain.
type pdHeld struct {
	d    *njson.Document
	n    njson.Node
	want string
}

type pdStale struct {
	n    njson.Node
	text string
}

// pdOwners records which documents are held. It is the oracle's and not part of the program, so it is
// kept out of the race detector's sight (threads run one at a time).
type pdOwners struct {
	docs [64]*njson.Document
	who  [64]int
	n    int
}

//go:norace
func (o *pdOwners) take(d *njson.Document, who int) int {
	for i := 0; i < o.n; i++ {
		if o.docs[i] == d {
			return o.who[i]
		}
	}
	o.docs[o.n], o.who[o.n] = d, who
	o.n++
	return -1
}

//go:norace
func (o *pdOwners) drop(d *njson.Document) {
	for i := 0; i < o.n; i++ {
		if o.docs[i] == d {
			o.n--
			o.docs[i], o.who[i] = o.docs[o.n], o.who[o.n]
			return
		}
	}
}

type pdThread struct {
	id     int
	pool   *njson.Pool // nil: the default pool
	owners *pdOwners
	alone  bool
	held   []pdHeld
	stale  []pdStale
	seq    int
}

func (p *pdThread) tag() string {
	p.seq++
	return fmt.Sprintf("t%dx%d", p.id, p.seq)
}

// blank says what is wrong with a document that should be empty.
func pdBlank(d *njson.Document) string {
	if d == nil {
		return "a nil document was handed out"
	}
	for id := uint(0); id < 6; id++ {
		if n := d.Node(id); n.Type() != njson.TypeInvalid {
			b, _ := n.AppendJSON(nil)
			return fmt.Sprintf("a document was handed out that is not empty: node %d is %s", id, b)
		}
	}
	if b, err := d.AppendJSON(nil); err == nil && len(b) > 0 {
		return fmt.Sprintf("a document was handed out that prints %s", b)
	}
	return ""
}

func (p *pdThread) get() *njson.Document {
	if p.pool != nil {
		return p.pool.Get()
	}
	return njson.Blank()
}

func (p *pdThread) put(d *njson.Document) {
	if p.pool != nil {
		p.pool.Put(d)
		return
	}
	d.Close()
}

func (p *pdThread) close(i int) {
	if i < 0 || i >= len(p.held) {
		return
	}
	h := p.held[i]
	p.held = append(p.held[:i:i], p.held[i+1:]...)
	if h.want != "" {
		p.stale = append(p.stale, pdStale{h.n, h.want})
	}
	p.owners.drop(h.d)
	p.put(h.d)
}

func (p *pdThread) verify(after string) {
	for i := range p.held {
		h := &p.held[i]
		if h.want == "" {
			if s := pdBlank(h.d); s != "" {
				vsync.Failf("after %s: %s", after, s)
			}
			continue
		}
		b, err := h.n.AppendJSON(nil)
		if err != nil || string(b) != h.want {
			vsync.Failf("after %s: a held document shows %q (%v) instead of %s", after, b, err, h.want)
		}
		if r := h.n.Document(); r != h.d {
			vsync.Failf("after %s: a held node has lost its document", after)
		}
	}
	if p.alone {
		p.verifyStale(after)
	}
}

func (p *pdThread) verifyStale(after string) {
	for _, s := range p.stale {
		if ty := s.n.Type(); ty != njson.TypeInvalid {
			b, _ := s.n.AppendJSON(nil)
			vsync.Failf("after %s: a handle of a returned document (%s) shows %s", after, s.text, b)
		}
		if b, err := s.n.AppendJSON(nil); err == nil || len(b) > 0 {
			vsync.Failf("after %s: a handle of a returned document (%s) prints %q", after, s.text, b)
		}
		if s.n.Raw() != "" || s.n.Index(0).Type() != njson.TypeInvalid || s.n.Get("k").Type() != njson.TypeInvalid {
			vsync.Failf("after %s: a handle of a returned document (%s) shows data", after, s.text)
		}
	}
}

func (p *pdThread) do(op byte) {
	x := p.tag()
	name := pdOps[op].what
	switch op {
	case pdTake:
		d := p.get()
		if s := pdBlank(d); s != "" {
			vsync.Failf("%s", s)
		}
		if who := p.owners.take(d, p.id); who >= 0 {
			vsync.Failf("thread %d was given a document that thread %d holds", p.id, who)
		}
		p.held = append(p.held, pdHeld{d: d})
	case pdBigCall:
		var v []interface{}
		text := pdBigText(x, 70)
		if err := unjson.UnmarshalFromString(text, &v); err != nil || len(v) != 71 || v[69] != x+".69" || v[0] != x+".0" {
			vsync.Failf("large text: decoded %v (%v)", v, err)
		}
	case pdBig, pdParse:
		if len(p.held) == 0 {
			return
		}
		h := &p.held[len(p.held)-1]
		text := fmt.Sprintf(`{"k":[%q,{"v":%d}],"l":"%s"}`, x, p.seq, x)
		if op == pdBig {
			text = pdBigText(x, 70)
		}
		n, tail, err := h.d.Parse(text)
		if err != nil || tail != "" {
			vsync.Failf("parse: %v %q", err, tail)
		}
		h.n, h.want = n, text
	case pdEdit:
		if len(p.held) == 0 || p.held[len(p.held)-1].want == "" || p.held[len(p.held)-1].want[0] != '{' {
			return
		}
		h := &p.held[len(p.held)-1]
		h.n.Set("k", h.d.Text(x))
		h.n.Set("m", h.d.Array())
		b, err := h.n.AppendJSON(nil)
		if err != nil || !strings.Contains(string(b), `"k":"`+x+`"`) {
			vsync.Failf("edit: %s %v", b, err)
		}
		h.want = string(b)
	case pdCloseFirst:
		p.close(0)
	case pdCloseLast:
		p.close(len(p.held) - 1)
	case pdUnmarshal, pdNested, pdMisfit:
		text := fmt.Sprintf(`{"a":%d,"y":["%s",{"q":%d}],"j":{"w":"%s"},"t":"%s","zz":[[]]}`, p.seq, x, p.seq, x, x)
		if op == pdNested {
			text = fmt.Sprintf(`{"a":%d,"n":{"k":"%s"}}`, p.seq, x)
		}
		if op == pdMisfit {
			text = fmt.Sprintf(`{"y":["%s"],"a":"%s"}`, x, x)
		}
		var v pdTarget
		err := unjson.Unmarshal([]byte(text), &v)
		switch {
		case op == pdMisfit:
			if err == nil {
				vsync.Failf("a misfit is accepted")
			}
		case err != nil:
			vsync.Failf("%s: %v", text, err)
		case v.A != p.seq:
			vsync.Failf("%s: a is %d", text, v.A)
		case op == pdNested && (v.N == nil || v.N.s != x):
			vsync.Failf("%s: n is %+v", text, v.N)
		case op == pdUnmarshal && (v.Y == nil || v.J == nil || v.T == nil || v.Y.s != fmt.Sprintf(`["%s",{"q":%d}]`, x, p.seq) || v.J.s != fmt.Sprintf(`{"w":"%s"}`, x) || v.T.s != x):
			vsync.Failf("%s: decoded %+v %+v %+v", text, v.Y, v.J, v.T)
		}
	case pdAny:
		var v interface{}
		text := fmt.Sprintf(`{"k":["%s"]}`, x)
		if err := unjson.UnmarshalFromString(text, &v); err != nil || fmt.Sprint(v) != "map[k:["+x+"]]" {
			vsync.Failf("%s: decoded %v (%v)", text, v, err)
		}
	case pdMalformed, pdTrailing:
		text := fmt.Sprintf(`{"a":%d,"j":["%s"`, p.seq, x)
		if op == pdTrailing {
			text = fmt.Sprintf(`{"a":%d} "%s"`, p.seq, x)
		}
		var v pdTarget
		if err := unjson.Unmarshal([]byte(text), &v); err == nil {
			vsync.Failf("%s is accepted", text)
		}
	case pdPrint, pdPrintFail, pdPrintWFail:
		text := `"` + x + `"`
		w := &pdWriter{fail: op == pdPrintWFail}
		n, err := njson.PrintJSON(w, pdAppend{text, op == pdPrintFail})
		got := w.got.String()
		switch {
		case op == pdPrintFail:
			if err == nil || got != "" {
				vsync.Failf("printing a failing value: %v, wrote %q", err, got)
			}
		case got != text || n != len(text) || (err != nil) != (op == pdPrintWFail):
			vsync.Failf("printing %s: %d, %v, wrote %q", text, n, err, got)
		}
	case pdWrapJSON, pdWrapText:
		var d njson.Document
		n, _, err := d.Parse(`["` + x + `","\u0041` + x + `"]`)
		if err != nil {
			vsync.Failf("parse: %v", err)
		}
		if op == pdWrapJSON {
			var u pdJSON
			if err := n.WrapUnmarshalJSON(&u); err != nil || u.s != `["`+x+`","\u0041`+x+`"]` {
				vsync.Failf("WrapUnmarshalJSON: %s %v", u.s, err)
			}
		} else {
			var u pdText
			if err := n.Index(1).WrapUnmarshalText(&u); err != nil || u.s != "A"+x {
				vsync.Failf("WrapUnmarshalText: %s %v", u.s, err)
			}
		}
	}
	p.verify(name)
}

var _ io.Writer = (*pdWriter)(nil)

// A case: [preemption bound][0 default pool, 1 own pool; + 10 (k+1): at most k choices of a pool other than the newest object][ops] 255 [ops] ...
func checkPoolSched(t *core.T, c []byte) {
	bound, mode, progs := cacheProgram(c)
	choices := -1
	if mode >= 10 {
		choices, mode = int(mode/10)-1, mode%10
	}
	schedExplore(t, bound, choices, c, func() ([]func(), func() string) {
		owners := &pdOwners{}
		var pool *njson.Pool
		if mode == 1 {
			pool = &njson.Pool{}
			pool.Put(nil)
		}
		ths := make([]*pdThread, len(progs))
		threads := make([]func(), len(progs))
		for i := range progs {
			p := &pdThread{id: i, pool: pool, owners: owners, alone: len(progs) == 1}
			ths[i] = p
			ops := progs[i]
			threads[i] = func() {
				for _, op := range ops {
					p.do(op)
				}
				if len(progs) > 1 {
					for len(p.held) > 0 {
						p.close(len(p.held) - 1)
					}
				}
			}
		}
		return threads, func() (msg string) {
			defer func() {
				if x := recover(); x != nil {
					msg = fmt.Sprint(x)
				}
			}()
			// take out what the pool holds
			end := &pdThread{id: len(progs), pool: pool, owners: owners}
			for i := 0; i < 6; i++ {
				end.do(pdTake)
				end.do(pdParse)
				for _, p := range ths {
					p.verify("the end")
					p.verifyStale("the end")
				}
			}
			end.verify("the end")
			return ""
		}
	})
}

func showPoolSched(c []byte) string {
	bound, mode, progs := cacheProgram(c)
	var b strings.Builder
	b.WriteString([]string{"default pool", "own pool"}[mode%10])
	if mode >= 10 {
		fmt.Fprintf(&b, ", at most %d unusual pool choices", mode/10-1)
	}
	if bound >= 0 {
		fmt.Fprintf(&b, ", at most %d preemptions", bound)
	}
	for i, p := range progs {
		fmt.Fprintf(&b, " | thread %d:", i)
		for k, op := range p {
			if k > 0 {
				b.WriteString(",")
			}
			b.WriteString(" " + pdOps[op].what)
		}
	}
	return b.String()
}

func poolFamilies(tier string) []core.Family {
	thorough := tier == "thorough"
	fam := func(name, rule string, enum func(emit func(c []byte) bool)) core.Family {
		return core.Family{Name: name, Timeout: 5 * time.Minute, Variant: "sched", Heavy: true, Rule: rule, Enum: enum, Check: checkPoolSched, Show: showPoolSched}
	}
	all := opRange(len(pdOps))
	docs := []byte{pdTake, pdParse, pdCloseFirst, pdCloseLast, pdBig}
	calls := []byte{pdUnmarshal, pdMalformed, pdMisfit, pdTrailing, pdNested, pdPrint, pdPrintFail, pdPrintWFail, pdWrapJSON, pdWrapText, pdAny, pdBigCall}
	depth, callDepth, allDepth := 5, 3, 3
	b2, b3 := byte(2), byte(1)
	if thorough {
		depth, callDepth, allDepth = 7, 4, 4
		b2, b3 = 3, 2
	}
	fams := []core.Family{
		fam("history", fmt.Sprintf("one thread, all sequences of %d operations take, parse, return first, return last with every choice of the pool; default pool and own pool", depth), func(emit func(c []byte) bool) {
			for mode := byte(0); mode < 2; mode++ {
				schedPrograms([]byte{255, mode}, docs, []int{depth}, emit)
			}
		}),
		fam("calls", fmt.Sprintf("one thread, all sequences of %d calls that borrow documents or buffers and of %d operations of any sort, with every choice of the pools", callDepth, allDepth), func(emit func(c []byte) bool) {
			schedPrograms([]byte{255, 0}, calls, []int{callDepth}, emit)
			schedPrograms([]byte{255, 0}, all, []int{allDepth}, emit)
		}),
		fam("docs2", "two threads with three operations each on documents, all schedules and choices", func(emit func(c []byte) bool) {
			for mode := byte(0); mode < 2; mode++ {
				schedPrograms([]byte{255, mode}, []byte{pdTake, pdParse, pdCloseFirst, pdEdit}, []int{3, 3}, emit)
			}
		}),
		fam("calls2", fmt.Sprintf("two threads with one operation of any sort each, at most 3 preemptions (half as many for nested calls) and 2 unusual pool choices, and with two and one, at most %d and 1", b3), func(emit func(c []byte) bool) {
			emit = fewerNested(emit)
			schedPrograms([]byte{3, 30}, all, []int{1, 1}, emit)
			schedPrograms([]byte{b3, 20}, all, []int{2, 1}, emit)
		}),
		fam("mixed", fmt.Sprintf("a thread that takes, parses and returns a document, then one operation, against each pair of calls, at most %d preemptions and 1 unusual pool choice", b3), func(emit func(c []byte) bool) {
			emit = fewerNested(emit)
			for _, o := range all {
				seqs(calls, 1, 2, func(s []byte) bool {
					c := []byte{b3, 20, pdTake, pdParse, pdCloseFirst, o, 255}
					return emit(append(c, s...))
				})
			}
		}),
		fam("three", fmt.Sprintf("three threads with one call each, at most %d preemptions and 1 unusual pool choice", b3), func(emit func(c []byte) bool) {
			emit = fewerNested(emit)
			schedPrograms([]byte{b3, 20}, calls, []int{1, 1, 1}, emit)
			c := []byte{b2, 30}
			emit(append(c, pdTake, pdParse, pdCloseFirst, 255, pdTake, pdParse, pdCloseFirst, 255, pdTake, pdParse, pdCloseFirst))
		}),
	}
	if thorough {
		fams = append(fams, fam("calls22", "two threads with two calls each, at most 1 preemption and 1 unusual pool choice", func(emit func(c []byte) bool) {
			emit = fewerNested(emit)
			schedPrograms([]byte{1, 20}, calls, []int{2, 2}, emit)
		}))
	}
	return fams
}

// fewerNested halves the preemption bound of programs with nested calls (they have many scheduling points).
func fewerNested(emit func(c []byte) bool) func(c []byte) bool {
	return func(c []byte) bool {
		n := 0
		for _, op := range c[2:] {
			if op == pdNested {
				n++
			}
		}
		if n > 0 && c[0] != 255 {
			c[0] /= 2
		}
		if n > 1 {
			c[1] = c[1]%10 + 20
		}
		return emit(c)
	}
}
