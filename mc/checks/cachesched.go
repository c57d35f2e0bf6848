package checks

import (
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"

	"verif/mc/core"
	"verif/mc/vsync"
)

func init() {
	core.Register(&core.Property{ID: "C21", Level: "model_checked", Families: cacheFamilies, Quick: 200, Thorough: 600,
		Assumptions: []string{
			"Scheduling points are the operations of packages sync and sync/atomic, which a build overlay replaces, and the calls of user-defined marshal methods; between them threads run without interruption. This loses nothing for executions without data races, and every explored schedule runs under the race detector with exactly the happens-before edges of the real primitives.",
			"Memory is sequentially consistent (Go's guarantee for race-free executions).",
			"The stand-in for package sync is itself checked by the family 'scheduler' (litmus programs with known outcome sets).",
		}})
}

// Types requested from a cache. x is a number that distinguishes threads.
type csPlain struct {
	A int    `json:"a" db:"A"`
	S string `json:"s" db:"S"`
}
type csRec struct {
	V int    `json:"v" db:"V"`
	N *csRec `json:"n" db:"N"`
}
type csBadRec struct {
	A int       `json:"a" db:"A"`
	N *csBadRec `json:"n" db:"N"`
	C chan int  `json:"c" db:"C"`
}
type csYield int

func (y csYield) AppendJSON(b []byte) ([]byte, error) {
	vsync.Yield()
	return strconv.AppendInt(b, int64(y), 10), nil
}
func (y *csYield) UnmarshalNodeJSON(n njson.Node) error {
	vsync.Yield()
	v, ok := n.ToInt()
	if !ok {
		return fmt.Errorf("not a number")
	}
	*y = csYield(v)
	return nil
}

type csNest struct{ m map[string]int }

func (n csNest) MarshalJSON() ([]byte, error) { return unjson.Marshal(n.m) }
func (n *csNest) UnmarshalJSON(b []byte) error {
	return unjson.Unmarshal(b, &n.m)
}

type csMutA struct {
	B *csMutB `json:"b" db:"B"`
}
type csMutB struct {
	A []csMutA `json:"a" db:"A"`
	X int      `json:"x" db:"X"`
}

type csType struct {
	name string
	typ  reflect.Type
	json func(x int) string
	val  func(x int) interface{}
}

var csTypes = []csType{
	{"plain", reflect.TypeOf(csPlain{}), func(x int) string { return fmt.Sprintf(`{"a":%d,"s":"s%d"}`, x, x) },
		func(x int) interface{} { return csPlain{x, fmt.Sprint("s", x)} }},
	{"recursive", reflect.TypeOf(csRec{}), func(x int) string { return fmt.Sprintf(`{"v":%d,"n":{"v":%d,"n":null}}`, x, x+1) },
		func(x int) interface{} { return csRec{x, &csRec{V: x + 1}} }},
	{"chan", reflect.TypeOf(make(chan int)), nil, nil},
	{"badrec", reflect.TypeOf(csBadRec{}), nil, nil},
	{"yielding", reflect.TypeOf([]csYield{}), func(x int) string { return fmt.Sprintf(`[%d,%d]`, x, x+1) },
		func(x int) interface{} { return []csYield{csYield(x), csYield(x + 1)} }},
	{"nested", reflect.TypeOf(csNest{}), func(x int) string { return fmt.Sprintf(`{"n":%d}`, x) },
		func(x int) interface{} { return csNest{map[string]int{"n": x}} }},
	{"mutual", reflect.TypeOf(csMutA{}), func(x int) string { return fmt.Sprintf(`{"b":{"a":[{"b":null}],"x":%d}}`, x) },
		func(x int) interface{} { return csMutA{&csMutB{[]csMutA{{}}, x}} }},
	{"slice of func", reflect.TypeOf([]func(){}), nil, nil},
	{"map", reflect.TypeOf(map[string]csPlain{}), func(x int) string { return fmt.Sprintf(`{"k%d":{"a":%d,"s":""}}`, x, x) },
		func(x int) interface{} { return map[string]csPlain{fmt.Sprint("k", x): {A: x}} }},
}

var csWrapped int

// csFresh is a struct type never seen before with one field of type typ.
func csFresh(typ reflect.Type) reflect.Type {
	csWrapped++
	return reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("F%d", csWrapped), Type: typ, Tag: `json:"f" db:"F"`}})
}

func csWrap(fresh reflect.Type, v interface{}) interface{} {
	if fresh == nil {
		return v
	}
	w := reflect.New(fresh).Elem()
	w.Field(0).Set(reflect.ValueOf(v))
	return w.Interface()
}

func csWrapJSON(fresh reflect.Type, s string) string {
	if fresh == nil {
		return s
	}
	return `{"f":` + s + `}`
}

// csGot is a codec handed out.
type csGot struct {
	op         byte
	begin, end int
	codec      interface{}
}

func sameCodec(a, b interface{}) (same bool) {
	defer func() {
		if recover() != nil {
			same = reflect.DeepEqual(a, b) // a codec that is not comparable
		}
	}()
	return a == b
}

// csRequest asks the cache for a codec and uses it.
func csRequest(c *unjson.Cache, op byte, fresh []reflect.Type, x int) csGot {
	ti := int(op) >> 1
	ct := &csTypes[ti]
	typ := ct.typ
	var fr reflect.Type
	if fresh != nil {
		fr = fresh[ti]
		typ = fr
	}
	g := csGot{op: op, begin: vsync.Clock()}
	if op&1 == 0 {
		enc, err := c.Encoder(typ)
		g.end = vsync.Clock()
		if ct.json == nil {
			if err == nil {
				vsync.Failf("Encoder(%s) of a type that cannot be encoded succeeds", ct.name)
			}
			return g
		}
		if err != nil || enc == nil {
			vsync.Failf("Encoder(%s): %v, error %v", ct.name, enc, err)
		}
		g.codec = enc
		want := "x" + csWrapJSON(fr, ct.json(x))
		out, err := enc.Encode([]byte("x"), csWrap(fr, ct.val(x)))
		if err != nil || string(out) != want {
			vsync.Failf("encoding %s: %s, error %v; want %s", ct.name, out, err, want)
		}
		return g
	}
	dec, err := c.Decoder(reflect.PtrTo(typ))
	g.end = vsync.Clock()
	if ct.json == nil {
		if err == nil {
			vsync.Failf("Decoder(%s) of a type that cannot be decoded succeeds", ct.name)
		}
		return g
	}
	if err != nil || dec == nil {
		vsync.Failf("Decoder(%s): %v, error %v", ct.name, dec, err)
	}
	g.codec = dec
	var d njson.Document
	n, _, err := d.Parse(csWrapJSON(fr, ct.json(x)))
	if err != nil {
		vsync.Failf("parse: %v", err)
	}
	v := reflect.New(typ)
	err = dec.Decode(v.Interface(), n)
	if want := csWrap(fr, ct.val(x)); err != nil || !reflect.DeepEqual(v.Elem().Interface(), want) {
		vsync.Failf("decoding %s: %+v, error %v; want %+v", ct.name, v.Elem().Interface(), err, want)
	}
	return g
}

// csFunc calls a package level function.
func csFunc(op byte, fresh []reflect.Type, x int) {
	ti := int(op) >> 2
	ct := &csTypes[ti]
	typ := fresh[ti]
	switch op & 3 {
	case 0, 1:
		var v interface{} = reflect.New(typ).Elem().Interface()
		want := ""
		if ct.json != nil {
			v = csWrap(typ, ct.val(x))
			want = csWrapJSON(typ, ct.json(x))
		}
		var out []byte
		var err error
		if op&3 == 0 {
			out, err = unjson.Marshal(v)
		} else {
			out, err = unjson.AppendJSON([]byte("pre"), v)
			want = "pre" + want
		}
		if ct.json == nil {
			if err == nil {
				vsync.Failf("marshalling %s succeeds", ct.name)
			}
			return
		}
		if err != nil || string(out) != want {
			vsync.Failf("marshalling %s: %s, error %v; want %s", ct.name, out, err, want)
		}
	default:
		v := reflect.New(typ)
		text := `{"f":null}`
		if ct.json != nil {
			text = csWrapJSON(typ, ct.json(x))
		}
		var err error
		if op&3 == 2 {
			err = unjson.Unmarshal([]byte(text), v.Interface())
		} else {
			var d njson.Document
			n, _, perr := d.Parse(text)
			if perr != nil {
				vsync.Failf("parse: %v", perr)
			}
			err = unjson.UnmarshalFromNode(n, v.Interface())
		}
		if ct.json == nil {
			if err == nil {
				vsync.Failf("unmarshalling %s succeeds", ct.name)
			}
			return
		}
		if want := csWrap(typ, ct.val(x)); err != nil || !reflect.DeepEqual(v.Elem().Interface(), want) {
			vsync.Failf("unmarshalling %s: %+v, error %v; want %+v", ct.name, v.Elem().Interface(), err, want)
		}
	}
}

// A case: [preemption bound or 255][mode: 0 static types, 1 fresh types, 2 fresh and custom options, 3 package functions][ops of thread 0] 255 [ops of thread 1] ...
func cacheProgram(c []byte) (bound int, mode byte, progs [][]byte) {
	bound, mode = int(int8(c[0])), c[1]
	cur := []byte{}
	for _, b := range c[2:] {
		if b == 255 {
			progs = append(progs, cur)
			cur = nil
			continue
		}
		cur = append(cur, b)
	}
	return bound, mode, append(progs, cur)
}

func checkCacheSched(t *core.T, c []byte) {
	bound, mode, progs := cacheProgram(c)
	var used [16]bool
	for _, p := range progs {
		for _, op := range p {
			if mode == 3 {
				used[op>>2] = true
			} else {
				used[op>>1] = true
			}
		}
	}
	schedExplore(t, bound, 1, c, func() ([]func(), func() string) {
		var fresh []reflect.Type
		if mode != 0 {
			fresh = make([]reflect.Type, len(csTypes))
			for i := range csTypes {
				if used[i] {
					fresh[i] = csFresh(csTypes[i].typ)
				}
			}
		}
		cache := &unjson.Cache{}
		if mode == 2 {
			cache.Options = unjson.Options{OmitMethod: "Blank"}
		}
		got := make([][]csGot, len(progs))
		threads := make([]func(), len(progs))
		for i := range progs {
			i := i
			threads[i] = func() {
				for k, op := range progs[i] {
					x := 100*(i+1) + 10*k
					if mode == 3 {
						csFunc(op, fresh, x)
					} else {
						got[i] = append(got[i], csRequest(cache, op, fresh, x))
					}
				}
			}
		}
		return threads, func() string {
			for i := range got {
				for _, a := range got[i] {
					for j := range got {
						for _, b := range got[j] {
							if a.op == b.op && a.codec != nil && b.codec != nil && a.end <= b.begin && !sameCodec(a.codec, b.codec) {
								return fmt.Sprintf("%s: a codec had been handed out to thread %d, thread %d got another one later", csOpName(mode, a.op), i, j)
							}
						}
					}
				}
			}
			// the codecs of failed types may not have damaged anything
			if mode != 3 {
				for op := byte(0); int(op) < 2*len(csTypes); op++ {
					if used[op>>1] {
						g := csRequest(cache, op, fresh, 7)
						for i := range got {
							for _, a := range got[i] {
								if a.op == op && a.codec != nil && !sameCodec(a.codec, g.codec) {
									return fmt.Sprintf("%s: thread %d holds another codec than the one handed out afterwards", csOpName(mode, op), i)
								}
							}
						}
					}
				}
			}
			return ""
		}
	})
}

// schedExplore runs every schedule of a program with at most bound preemptions (negative: any number).
// If these are too many it runs all with at most 0, 1, 2, ... preemptions until there are too many.
func schedExplore(t *core.T, bound, choices int, c []byte, setup func() ([]func(), func() string)) {
	limit := 10000
	if t.Tier == "thorough" {
		limit = 12000
	}
	e, _ := t.W["explorer"].(*vsync.Explorer)
	if e == nil {
		e = &vsync.Explorer{}
		t.W["explorer"] = e
	}
	explore := func(bound, limit int) bool {
		for try := 0; ; try++ {
			e.Reset(bound)
			e.PoolChoices = choices
			e.Stop = t.Late
			msg, complete := e.Explore(limit, setup)
			t.Runs(e.Executions)
			t.Steps(e.Points)
			if msg != "" {
				t.Failf("%s", msg)
			}
			if !e.Undetermined {
				return complete
			}
			if try == 4 {
				t.Incomplete("executions are not determined by their schedules")
				return false
			}
		}
	}
	t.StateBytes(c)
	// types made with package reflect are never freed
	if b, err := os.ReadFile("/proc/self/statm"); err == nil {
		var size, rss int
		if fmt.Sscan(string(b), &size, &rss); rss > 5<<29/os.Getpagesize() {
			t.Incomplete("memory is used up")
			return
		}
	}
	if explore(bound, limit) {
		t.Count(fmt.Sprintf("explored completely with at most %d preemptions (-1: any number)", bound))
		return
	}
	for b := 0; bound < 0 || b <= bound; b++ {
		if t.Late() {
			t.Incomplete("time is up")
			return
		}
		if !explore(b, limit) {
			t.Count(fmt.Sprintf("explored completely with at most %d preemptions, and partly with more", b-1))
			return
		}
	}
}

func csOpName(mode, op byte) string {
	if mode == 3 {
		return []string{"Marshal", "AppendJSON", "Unmarshal", "UnmarshalFromNode"}[op&3] + "(" + csTypes[op>>2].name + ")"
	}
	return []string{"Encoder", "Decoder"}[op&1] + "(" + csTypes[op>>1].name + ")"
}

func showCacheSched(c []byte) string {
	bound, mode, progs := cacheProgram(c)
	var b strings.Builder
	b.WriteString([]string{"cache", "cache, new types", "cache with options, new types", "package functions, new types"}[mode])
	if bound >= 0 {
		fmt.Fprintf(&b, ", at most %d preemptions", bound)
	}
	for i, p := range progs {
		fmt.Fprintf(&b, " | thread %d:", i)
		for _, op := range p {
			b.WriteString(" " + csOpName(mode, op))
		}
	}
	return b.String()
}

// litmus checks the stand-in for package sync: programs whose outcome sets are known.
func litmus(t *core.T, c []byte) {
	outcomes := map[string]int{}
	var e vsync.Explorer
	e.Reset(-1)
	run := func(f func() ([]func(), func() string)) (string, bool) {
		return e.Explore(0, f)
	}
	expect := func(want ...string) {
		if len(outcomes) != len(want) {
			t.Failf("outcomes %v, want %v", outcomes, want)
		}
		for _, w := range want {
			if outcomes[w] == 0 {
				t.Failf("outcome %s missing in %v", w, outcomes)
			}
		}
	}
	switch c[0] {
	case 'm': // two critical sections, both orders
		msg, _ := run(func() ([]func(), func() string) {
			var m vsync.Mutex
			s := ""
			f := func(x string) func() {
				return func() { m.Lock(); s += x; vsync.Yield(); s += x; m.Unlock() }
			}
			return []func(){f("a"), f("b")}, func() string { outcomes[s]++; return "" }
		})
		if msg != "" {
			t.Failf("%s", msg)
		}
		expect("aabb", "bbaa")
	case 'i': // interleavings of two threads with three points each: C(6,3)
		msg, _ := run(func() ([]func(), func() string) {
			var m vsync.Mutex
			s := ""
			f := func(x string) func() {
				return func() {
					for i := 0; i < 3; i++ {
						vsync.Yield()
						m.Lock()
						s += x
						m.Unlock()
					}
				}
			}
			return []func(){f("a"), f("b")}, func() string { outcomes[s]++; return "" }
		})
		if msg != "" || len(outcomes) != 20 {
			t.Failf("%d outcomes, want 20: %s", len(outcomes), msg)
		}
	case 'd': // lock order inversion
		msg, _ := run(func() ([]func(), func() string) {
			var m, n vsync.Mutex
			return []func(){func() { m.Lock(); n.Lock(); n.Unlock(); m.Unlock() }, func() { n.Lock(); m.Lock(); m.Unlock(); n.Unlock() }}, nil
		})
		if !strings.Contains(msg, "deadlock") {
			t.Failf("the deadlock is not found: %q", msg)
		}
	case 'r': // readers share, a waiting writer blocks new readers: recursive read locking deadlocks
		msg, _ := run(func() ([]func(), func() string) {
			var m vsync.RWMutex
			return []func(){func() { m.RLock(); m.RLock(); m.RUnlock(); m.RUnlock() }, func() { m.Lock(); m.Unlock() }}, nil
		})
		if !strings.Contains(msg, "deadlock") {
			t.Failf("the deadlock is not found: %q", msg)
		}
	case 's': // readers overlap, never with a writer
		msg, _ := run(func() ([]func(), func() string) {
			var m vsync.RWMutex
			var k vsync.Mutex
			s := ""
			add := func(x string) { k.Lock(); s += x; k.Unlock() }
			rd := func() { m.RLock(); add("r"); vsync.Yield(); add("r"); m.RUnlock() }
			return []func(){rd, rd, func() { m.Lock(); add("w"); vsync.Yield(); add("w"); m.Unlock() }}, func() string { outcomes[s]++; return "" }
		})
		if msg != "" {
			t.Failf("%s", msg)
		}
		expect("rrrrww", "rrwwrr", "wwrrrr")
	case 'p': // a pool hands out any object or none
		msg, _ := run(func() ([]func(), func() string) {
			p := vsync.Pool{New: func() interface{} { return "new" }}
			s := ""
			return []func(){func() {
				p.Put("a")
				p.Put("b")
				s = p.Get().(string) + p.Get().(string)
			}}, func() string { outcomes[s]++; return "" }
		})
		if msg != "" {
			t.Failf("%s", msg)
		}
		expect("ab", "ba", "anew", "bnew", "newa", "newb", "newnew")
	case 'o': // once
		msg, _ := run(func() ([]func(), func() string) {
			var o vsync.Once
			n := 0
			f := func() {
				o.Do(func() { vsync.Yield(); n++ })
				if n != 1 {
					vsync.Failf("not done")
				}
			}
			return []func(){f, f}, nil
		})
		if msg != "" {
			t.Failf("%s", msg)
		}
	case 'w': // preemption bound 0 leaves the orders of whole threads
		e.Preemptions = 0
		msg, _ := run(func() ([]func(), func() string) {
			var k vsync.Mutex
			s := ""
			f := func(x string) func() {
				return func() {
					k.Lock()
					s += x
					k.Unlock()
					vsync.Yield()
					k.Lock()
					s += x
					k.Unlock()
				}
			}
			return []func(){f("a"), f("b"), f("c")}, func() string { outcomes[s]++; return "" }
		})
		if msg != "" || len(outcomes) != 6 {
			t.Failf("%v %s", outcomes, msg)
		}
	}
	t.Runs(e.Executions)
	t.Steps(e.Points)
	for o := range outcomes {
		t.State(string(c) + o)
	}
}

// programsOf emits all tuples of n sequences with at most max[i] ops each (at least one).
func seqs(ops []byte, lo, hi int, emit func(s []byte) bool) bool {
	var rec func(s []byte) bool
	rec = func(s []byte) bool {
		if len(s) >= lo && !emit(s) {
			return false
		}
		if len(s) == hi {
			return true
		}
		for _, o := range ops {
			if !rec(append(s[:len(s):len(s)], o)) {
				return false
			}
		}
		return true
	}
	return rec(nil)
}

// schedPrograms enumerates unordered tuples of threads.
func schedPrograms(head []byte, ops []byte, sizes []int, emit func(c []byte) bool) {
	var rec func(i int, c []byte, prev string) bool
	rec = func(i int, c []byte, prev string) bool {
		if i == len(sizes) {
			return emit(append([]byte(nil), c...))
		}
		return seqs(ops, sizes[i], sizes[i], func(s []byte) bool {
			// threads with the same length are interchangeable
			if i > 0 && sizes[i] == sizes[i-1] && string(s) < prev {
				return true
			}
			cc := c
			if i > 0 {
				cc = append(c[:len(c):len(c)], 255)
			}
			return rec(i+1, append(cc[:len(cc):len(cc)], s...), string(s))
		})
	}
	rec(0, head, "")
}

// fewer halves the preemption bound of programs that contain nested calls (they have many scheduling points).
func fewer(emit func(c []byte) bool) func(c []byte) bool {
	return func(c []byte) bool {
		for _, op := range c[2:] {
			if op != 255 && csTypes[op>>2].name == "nested" {
				c[0] /= 2
				break
			}
		}
		return emit(c)
	}
}

func opRange(n int) (b []byte) {
	for i := 0; i < n; i++ {
		b = append(b, byte(i))
	}
	return
}

func cacheFamilies(tier string) []core.Family {
	thorough := tier == "thorough"
	all := opRange(2 * len(csTypes))
	fns := opRange(4 * len(csTypes))
	b21, b111 := byte(3), byte(2)
	if thorough {
		b21, b111 = 5, 3
	}
	fam := func(name, rule string, enum func(emit func(c []byte) bool)) core.Family {
		return core.Family{Name: name, Timeout: 5 * time.Minute, Variant: "sched", Heavy: true, Rule: rule, Enum: enum, Check: checkCacheSched, Show: showCacheSched}
	}
	fams := []core.Family{
		manyTypes(tier),
		{Name: "scheduler", Timeout: 5 * time.Minute, Variant: "sched", Heavy: true, Rule: "litmus programs for the controlled mutexes, pools and scheduler: outcome sets and deadlocks as known",
			Enum: func(emit func(c []byte) bool) {
				for _, b := range "midrspow" {
					emit([]byte{byte(b)})
				}
			}, Check: litmus},
		fam("one", "one thread, all sequences of up to 3 requests (8 types, encoder or decoder) to one cache, fresh types and options included", func(emit func(c []byte) bool) {
			for mode := byte(0); mode < 3; mode++ {
				for n := 1; n <= 3; n++ {
					if n == 3 && mode == 2 && !thorough {
						continue
					}
					schedPrograms([]byte{255, mode}, all, []int{n}, emit)
				}
			}
		}),
		fam("two", "two threads with one request each, all schedules", func(emit func(c []byte) bool) {
			for mode := byte(0); mode < 3; mode++ {
				schedPrograms([]byte{255, mode}, all, []int{1, 1}, emit)
			}
		}),
		fam("two1", fmt.Sprintf("two threads with two requests and one, schedules with at most %d preemptions (255: all)", b21), func(emit func(c []byte) bool) {
			for mode := byte(0); mode < 2; mode++ {
				if mode == 1 && !thorough {
					break
				}
				schedPrograms([]byte{b21, mode}, all, []int{2, 1}, emit)
			}
		}),
		fam("two2", "two threads with two requests each, all schedules", func(emit func(c []byte) bool) {
			ops := []byte{0, 1, 2, 3, 6, 7} // plain, recursive, failing recursive type
			if thorough {
				ops = append(ops, 10, 11)
			}
			schedPrograms([]byte{255, 0}, ops, []int{2, 2}, emit)
		}),
		fam("three", fmt.Sprintf("three threads with one request each, schedules with at most %d preemptions (255: all)", b111), func(emit func(c []byte) bool) {
			schedPrograms([]byte{b111, 0}, all, []int{1, 1, 1}, emit)
		}),
		fam("functions", "package level functions on new types: two threads with one call each (at most 4 preemptions) and with two and one (at most 1, thorough 2); half as many if nested calls are among them", func(emit func(c []byte) bool) {
			emit = fewer(emit)
			schedPrograms([]byte{4, 3}, fns, []int{1, 1}, emit)
			ops := []byte{}
			for _, o := range fns {
				if k := o & 3; thorough || k == 0 || k == 2 {
					ops = append(ops, o)
				}
			}
			b := byte(1)
			if thorough {
				b = 2
			}
			schedPrograms([]byte{b, 3}, ops, []int{2, 1}, emit)
		}),
	}
	if thorough {
		fams = append(fams,
			fam("three2", "three threads with two, one and one requests, at most 3 preemptions; three calls of package functions with at most 2 preemptions", func(emit func(c []byte) bool) {
				schedPrograms([]byte{3, 0}, []byte{0, 1, 2, 3, 6, 7, 8, 9}, []int{2, 1, 1}, emit)
				emit = fewer(emit)
				ops := []byte{}
				for _, o := range fns {
					if k := o & 3; k == 0 || k == 2 {
						ops = append(ops, o)
					}
				}
				schedPrograms([]byte{2, 3}, ops, []int{1, 1, 1}, emit)
			}),
			fam("four", "four threads with one request each for the same or two types, at most 3 preemptions", func(emit func(c []byte) bool) {
				schedPrograms([]byte{3, 0}, []byte{0, 1, 2, 6}, []int{1, 1, 1, 1}, emit)
			}))
	}
	return fams
}
