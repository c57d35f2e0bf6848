// Package core runs exhaustive explorations of the real code and reports on them.
package core

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Family is one finite space of cases with an oracle.
type Family struct {
	Name string
	Rule string // what the cases are and what bounds the space
	// Enum emits every case. Emit returns false when the run is being stopped.
	Enum func(emit func(c []byte) bool)
	// Run is an alternative to Enum for searches that need results of earlier cases (breadth-first search).
	Run func(r *Runner)
	// Check executes one case on the real code and compares it with the model.
	Check func(t *T, c []byte)
	// Show renders a case for people (default: quoted string).
	Show func(c []byte) string
	// Heavy families dispatch cases one by one.
	Heavy bool
	// Timeout for one case (default 60s).
	Timeout time.Duration
	// Variant names the build the family runs on ("": plain, "race": race detector, "sched": race detector and
	// controlled synchronisation; "gen", "order": with the code generator and its map ranges controlled; "sched" and
	// "order" are explored by one single-threaded process per core).
	Variant string
	// Single runs the family on one worker only.
	Single bool
}

// Property is a check.
type Property struct {
	ID       string
	Level    string
	Families func(tier string) []Family
	// Note lists assumptions for the evidence file.
	Assumptions []string
	// Budget in seconds for quick and thorough (0: default).
	Quick, Thorough int
}

var registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) { registry[p.ID] = p }

// T is the context of one case execution on one worker.
type T struct {
	Tier    string
	W       map[string]interface{} // worker-local scratch
	steps   int64
	states  *hashSet
	runs    int64
	seed    maphash.Seed
	family  string
	slot    *slot
	outcome int64
	runner  *Runner

	incomplete map[string]int
	counts     map[string]int
}

type failure struct{ msg string }

// Failf reports a violation and ends the case.
func (t *T) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Steps counts model transitions.
func (t *T) Steps(n int) { t.steps += int64(n) }

// State records a reference-model state (an expected observable outcome).
func (t *T) State(s string) {
	t.states.add(hashString(t.family) ^ hashString(s))
}

// StateBytes is State for bytes.
func (t *T) StateBytes(s []byte) {
	t.states.add(hashString(t.family) ^ hashString(unsafe.String(unsafe.SliceData(s), len(s))))
}

// Late reports that the time is up: a case that explores much should stop.
func (t *T) Late() bool { return t.runner != nil && t.runner.Stopped() }

// Incomplete records that the case was not explored completely.
func (t *T) Incomplete(why string) {
	if t.incomplete == nil {
		t.incomplete = map[string]int{}
	}
	t.incomplete[t.family+": "+why]++
}

// Count counts cases of a sort for the evidence.
func (t *T) Count(what string) {
	if t.counts == nil {
		t.counts = map[string]int{}
	}
	t.counts[t.family+": "+what]++
}

// Runs counts extra complete executions of the real code inside the case (1 is counted per case).
func (t *T) Runs(n int) { t.runs += int64(n) }

func hashString(s string) uint64 {
	// FNV-1a, then a finaliser.
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	return h
}

// Hash is a 64-bit hash of s.
func Hash(s string) uint64 { return hashString(s) }

type hashSet struct {
	tab  []uint64
	n    int
	full bool
}

const maxSet = 1 << 22

func (h *hashSet) add(x uint64) {
	if x == 0 {
		x = 1
	}
	if h.tab == nil {
		h.tab = make([]uint64, 1<<12)
	}
	if h.n*2 >= len(h.tab) {
		if h.n >= maxSet {
			h.full = true
			return
		}
		old := h.tab
		h.tab = make([]uint64, 2*len(old))
		for _, v := range old {
			if v != 0 {
				h.put(v)
			}
		}
	}
	if h.put(x) {
		h.n++
	}
}

func (h *hashSet) put(x uint64) bool {
	m := uint64(len(h.tab) - 1)
	for i := x & m; ; i = (i + 1) & m {
		switch h.tab[i] {
		case 0:
			h.tab[i] = x
			return true
		case x:
			return false
		}
	}
}

// ---------------------------------------------------------------- slots

const (
	slotSize = 1 << 16
	numSlots = 64
)

type slot struct{ b []byte }

func (s *slot) set(fam int, c []byte) {
	n := len(c)
	if n > slotSize-16 {
		n = slotSize - 16
	}
	copy(s.b[16:], c[:n])
	*(*uint32)(unsafe.Pointer(&s.b[4])) = uint32(fam)
	*(*uint32)(unsafe.Pointer(&s.b[8])) = uint32(n)
	atomic.StoreUint32((*uint32)(unsafe.Pointer(&s.b[0])), 1)
}
func (s *slot) clear() { atomic.StoreUint32((*uint32)(unsafe.Pointer(&s.b[0])), 0) }

// ---------------------------------------------------------------- runner

type caseFailure struct {
	Family string `json:"family"`
	Case   string `json:"case_hex"`
	Show   string `json:"case"`
	Msg    string `json:"message"`
	Reruns string `json:"reruns,omitempty"`
	raw    []byte
}

type sample struct {
	Family string `json:"family"`
	Case   string `json:"case"`
}

type famStat struct {
	Name       string  `json:"name"`
	Rule       string  `json:"rule"`
	Cases      int64   `json:"cases"`
	Exhaustive bool    `json:"exhaustive"`
	Wall       float64 `json:"wall_s"`
}

type result struct {
	Failures    []caseFailure
	Families    []famStat
	States      int64
	StatesFull  bool
	Transitions int64
	Executions  int64
	Samples     []sample
	Exhaustive  bool
	Hang        bool
	Notes       []string
	Counts      map[string]int
}

// Runner explores one property.
type Runner struct {
	Tier     string
	prop     *Property
	workers  int
	slots    []slot
	deadline time.Time
	stop     int32

	mu       sync.Mutex
	failures []caseFailure
	famIdx   int
	fam      atomic.Pointer[Family]
	ts       []*T
	cases    int64
	samples  []sample
	notes    []string
	capped   bool

	shards int     // number of processes that share the cases
	claims []int64 // per family: the next case nobody has taken (shared memory)

	seq   []int64 // per worker: increases with each case; odd while busy
	since []int64
}

// Stopped tells a search to end.
func (r *Runner) Stopped() bool {
	if atomic.LoadInt32(&r.stop) != 0 {
		return true
	}
	return false
}

// Note adds a remark to the evidence.
func (r *Runner) Note(format string, a ...interface{}) {
	r.mu.Lock()
	r.notes = append(r.notes, fmt.Sprintf(format, a...))
	r.mu.Unlock()
}

// Capped marks the search as not exhaustive.
func (r *Runner) Capped() { r.mu.Lock(); r.capped = true; r.mu.Unlock() }

func (r *Runner) addFailure(f *Family, c []byte, msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	cc := append([]byte(nil), c...)
	r.failures = append(r.failures, caseFailure{Family: f.Name, Case: hex.EncodeToString(cc), Show: show(f, cc), Msg: msg, raw: cc})
	if len(r.failures) >= 40 {
		atomic.StoreInt32(&r.stop, 1)
	}
	if len(r.failures) == 1 {
		// give the enumeration a little more time to find a shorter one
		go func() { time.Sleep(3 * time.Second); atomic.StoreInt32(&r.stop, 1) }()
	}
}

func show(f *Family, c []byte) (s string) {
	if f.Show != nil {
		defer func() {
			if e := recover(); e != nil {
				s = strconv.Quote(string(c))
			}
		}()
		return f.Show(c)
	}
	if len(c) > 2000 {
		return strconv.Quote(string(c[:2000])) + "…"
	}
	return strconv.Quote(string(c))
}

// exec runs one case, returning the failure message or "".
func execCase(f *Family, t *T, c []byte) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if fl, ok := e.(failure); ok {
				msg = fl.msg
				return
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, st)
		}
	}()
	t.family = f.Name
	f.Check(t, c)
	return ""
}

func (r *Runner) exec(w int, f *Family, c []byte) bool {
	t := r.ts[w]
	r.slots[w].set(r.famIdx, c)
	atomic.StoreInt64(&r.since[w], time.Now().UnixNano())
	atomic.AddInt64(&r.seq[w], 1)
	t.runs++
	msg := execCase(f, t, c)
	atomic.AddInt64(&r.seq[w], 1)
	if msg != "" {
		r.addFailure(f, c, msg)
		return false
	}
	return true
}

// ForEach runs fn on every item in parallel (for Run families). fn may call t.Failf.
func (r *Runner) ForEach(n int, item func(i int) []byte, fn func(t *T, i int, c []byte)) {
	var next int64
	var wg sync.WaitGroup
	f := r.fam.Load()
	for w := 0; w < r.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for !r.Stopped() {
				i := int(atomic.AddInt64(&next, 1) - 1)
				if i >= n {
					break
				}
				c := item(i)
				ff := *f
				ff.Check = func(t *T, c []byte) { fn(t, i, c) }
				atomic.AddInt64(&r.cases, 1)
				r.exec(w, &ff, c)
			}
			r.slots[w].clear()
		}(w)
	}
	wg.Wait()
}

type batch struct {
	buf  []byte
	ends []int
}

func (r *Runner) runFamily(idx int, f *Family) famStat {
	start := time.Now()
	r.famIdx = idx
	r.fam.Store(f)
	atomic.StoreInt64(&r.cases, 0)
	r.capped = false
	if f.Run != nil {
		f.Run(r)
	} else {
		workers := r.workers
		if f.Single {
			workers = 1
		}
		ch := make(chan *batch, 2*workers)
		free := make(chan *batch, 4*workers)
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for b := range ch {
					s := 0
					for _, e := range b.ends {
						if r.Stopped() {
							break
						}
						r.exec(w, f, b.buf[s:e:e])
						s = e
					}
					b.buf, b.ends = b.buf[:0], b.ends[:0]
					select {
					case free <- b:
					default:
					}
				}
				r.slots[w].clear()
			}(w)
		}
		get := func() *batch {
			select {
			case b := <-free:
				return b
			default:
				return &batch{}
			}
		}
		limit, maxb := 256, 1<<15
		if f.Heavy {
			limit = 1
		}
		cur := get()
		n, num, claimed := int64(0), int64(0), int64(-1)
		f.Enum(func(c []byte) bool {
			num++
			if r.shards > 1 {
				// claim the next case that no other process has taken
				if claimed < 0 {
					claimed = atomic.AddInt64(&r.claims[idx], 1) - 1
				}
				if num-1 != claimed {
					return !r.Stopped()
				}
				claimed = -1
			}
			cur.buf = append(cur.buf, c...)
			cur.ends = append(cur.ends, len(cur.buf))
			n++
			if n <= 3 || (n&(n-1)) == 0 && n < 1<<20 {
				r.mu.Lock()
				r.samples = append(r.samples, sample{f.Name, show(f, append([]byte(nil), c...))})
				r.mu.Unlock()
			}
			if len(cur.ends) >= limit || len(cur.buf) >= maxb {
				ch <- cur
				cur = get()
			}
			return !r.Stopped()
		})
		ch <- cur
		close(ch)
		wg.Wait()
		atomic.AddInt64(&r.cases, n)
	}
	return famStat{Name: f.Name, Rule: f.Rule, Cases: atomic.LoadInt64(&r.cases), Exhaustive: !r.Stopped() && !r.capped, Wall: time.Since(start).Seconds()}
}

func newT(tier string) *T {
	return &T{Tier: tier, W: map[string]interface{}{}, states: &hashSet{}}
}

func child(p *Property, tier, variant string, slotFile, outFile string, budget time.Duration, filter string, shards int, claims string) {
	limitMemory()
	debug.SetMaxStack(256 << 20)
	if !raceEnabled {
		debug.SetMemoryLimit(8 << 30)
	}
	mem := mapSlots(slotFile)
	r := &Runner{Tier: tier, prop: p, workers: runtime.GOMAXPROCS(0), deadline: time.Now().Add(budget)}
	if shards > 0 {
		runtime.GOMAXPROCS(1)
		r.workers, r.shards = 1, shards
		if shards > 1 {
			b := mapFile(claims, 8*numClaims)
			r.claims = unsafe.Slice((*int64)(unsafe.Pointer(&b[0])), numClaims)
		}
	}
	r.seq = make([]int64, numSlots)
	r.since = make([]int64, numSlots)
	for i := 0; i < numSlots; i++ {
		r.slots = append(r.slots, slot{mem[i*slotSize : (i+1)*slotSize]})
	}
	for w := 0; w < r.workers; w++ {
		t := newT(tier)
		t.runner = r
		r.ts = append(r.ts, t)
	}
	timer := time.AfterFunc(budget, func() { atomic.StoreInt32(&r.stop, 1) })
	defer timer.Stop()
	fams := p.Families(tier)
	// watchdog
	go func() {
		last := make([]int64, numSlots)
		for {
			time.Sleep(time.Second)
			to := 60 * time.Second
			if f := r.fam.Load(); f != nil && f.Timeout != 0 {
				to = f.Timeout
			}
			for w := range last {
				s := atomic.LoadInt64(&r.seq[w])
				if s&1 == 1 && s == last[w] && time.Since(time.Unix(0, atomic.LoadInt64(&r.since[w]))) > to {
					os.WriteFile(outFile+".hang", []byte(strconv.Itoa(w)), 0o644)
					buf := make([]byte, 1<<16)
					n := runtime.Stack(buf, true)
					os.Stderr.Write(buf[:n])
					os.Exit(43)
				}
				last[w] = s
			}
		}
	}()
	res := result{Exhaustive: true}
	for i := range fams {
		f := &fams[i]
		if f.Variant != variant || (filter != "" && !strings.HasPrefix(f.Name, filter)) {
			continue
		}
		st := r.runFamily(i, f)
		if r.Stopped() {
			st.Exhaustive = false
		}
		if !st.Exhaustive {
			res.Exhaustive = false
		}
		res.Families = append(res.Families, st)
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "%s %s: %d cases %.2fs exhaustive=%v\n", p.ID, f.Name, st.Cases, st.Wall, st.Exhaustive)
		}
		if r.Stopped() {
			break
		}
	}
	// merge states
	all := &hashSet{}
	for _, t := range r.ts {
		for what, n := range t.counts {
			if res.Counts == nil {
				res.Counts = map[string]int{}
			}
			res.Counts[what] += n
		}
		for why, n := range t.incomplete {
			res.Exhaustive = false
			r.notes = append(r.notes, fmt.Sprintf("%d cases not explored completely: %s", n, why))
		}
		for _, x := range t.states.tab {
			if x != 0 {
				all.add(x)
			}
		}
		if t.states.full {
			res.StatesFull = true
		}
		res.Transitions += t.steps
		res.Executions += t.runs
	}
	res.States = int64(all.n)
	res.StatesFull = res.StatesFull || all.full
	sort.SliceStable(r.failures, func(i, j int) bool { return len(r.failures[i].raw) < len(r.failures[j].raw) })
	if len(r.failures) > 10 {
		r.failures = r.failures[:10]
	}
	for i := range r.failures {
		fl := &r.failures[i]
		if f := findFamily(fams, fl.Family); f != nil && f.Check != nil {
			n := 0
			t := newT(tier)
			for k := 0; k < 5; k++ {
				if execCase(f, t, fl.raw) != "" {
					n++
				}
			}
			fl.Reruns = fmt.Sprintf("%d of 5 isolated re-runs fail", n)
		}
	}
	res.Failures = r.failures
	res.Samples = r.samples
	res.Notes = r.notes
	if shards > 0 {
		var b []byte
		for _, x := range all.tab {
			if x != 0 {
				b = binary.LittleEndian.AppendUint64(b, x)
			}
		}
		os.WriteFile(outFile+".states", b, 0o644)
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(outFile, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(44)
	}
}

func findFamily(fams []Family, name string) *Family {
	for i := range fams {
		if fams[i].Name == name {
			return &fams[i]
		}
	}
	return nil
}

func mapSlots(name string) []byte { return mapFile(name, slotSize*numSlots) }

const numClaims = 64

func mapFile(name string, size int) []byte {
	fd, err := syscall.Open(name, syscall.O_RDWR, 0)
	if err != nil {
		return make([]byte, size)
	}
	b, err := syscall.Mmap(fd, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return make([]byte, size)
	}
	return b
}

func limitMemory() {
	if raceEnabled {
		return
	}
	lim := syscall.Rlimit{Cur: 20 << 30, Max: 20 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
}

type finding struct {
	prop, family, hexcase, what string
	fixed                       bool
}

func loadFindings(path string) (out []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var f finding
		rest := strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		for {
			i := strings.IndexByte(rest, ' ')
			w := rest
			if i >= 0 {
				w = rest[:i]
			}
			ok := true
			switch {
			case strings.HasPrefix(w, "property="):
				f.prop = w[9:]
			case strings.HasPrefix(w, "family="):
				f.family = w[7:]
			case strings.HasPrefix(w, "case="):
				f.hexcase = w[5:]
			default:
				ok = false
			}
			if !ok || i < 0 {
				break
			}
			rest = strings.TrimSpace(rest[i:])
		}
		f.what = rest
		out = append(out, f)
	}
	return
}

// ballast is never touched: it only makes garbage collections rarer.
var ballast []byte

// list prints what the checks enumerate, as JSON.
func list() {
	type family struct{ Name, Rule, Variant string }
	out := map[string]any{}
	for id, p := range registry {
		var fams []family
		for _, f := range p.Families("thorough") {
			fams = append(fams, family{f.Name, f.Rule, f.Variant})
		}
		out[id] = map[string]any{"assumptions": p.Assumptions, "families": fams, "quick_s": p.Quick, "thorough_s": p.Thorough}
	}
	b, err := json.Marshal(out)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(b)
}

// Main is the entry point of a check binary.
func Main() {
	ballast = make([]byte, 192<<20)
	defer runtime.KeepAlive(ballast)
	args := map[string]string{"tier": os.Getenv("VERIF_TIER"), "root": "/verif"}
	for i := 1; i < len(os.Args); i++ {
		a := strings.TrimLeft(os.Args[i], "-")
		if k := strings.IndexByte(a, '='); k >= 0 {
			args[a[:k]] = a[k+1:]
		} else if i+1 < len(os.Args) {
			args[a] = os.Args[i+1]
			i++
		}
	}
	tier := args["tier"]
	if tier != "thorough" {
		tier = "quick"
	}
	if args["list"] != "" {
		list()
		return
	}
	p := registry[args["prop"]]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", args["prop"])
		os.Exit(3)
	}
	budget := 150
	if p.Quick > 0 {
		budget = p.Quick
	}
	if tier == "thorough" {
		budget = 780
		if p.Thorough > 0 {
			budget = p.Thorough
		}
	}
	if s := args["budget"]; s != "" {
		budget, _ = strconv.Atoi(s)
	}
	switch {
	case args["child"] != "":
		child(p, tier, args["variant"], args["slots"], args["child"], time.Duration(budget)*time.Second, args["family"], atoi(args["shards"]), args["claims"])
		os.Exit(0)
	case args["case"] != "":
		// one case alone: family index : hex
		limitMemory()
		debug.SetMaxStack(256 << 20)
		i := strings.IndexByte(args["case"], ':')
		fi, _ := strconv.Atoi(args["case"][:i])
		c, _ := hex.DecodeString(args["case"][i+1:])
		fams := p.Families(tier)
		if fi >= len(fams) {
			os.Exit(3)
		}
		if pf := os.Getenv("VERIF_PROFILE"); pf != "" {
			f, _ := os.Create(pf)
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		if msg := execCase(&fams[fi], newT(tier), c); msg != "" {
			fmt.Println(msg)
			os.Exit(1)
		}
		pprof.StopCPUProfile()
		os.Exit(0)
	case args["replay"] != "":
		b, err := os.ReadFile(args["replay"])
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		var cf struct {
			Failures []caseFailure `json:"failures"`
		}
		if err := json.Unmarshal(b, &cf); err != nil || len(cf.Failures) == 0 {
			fmt.Println("bad replay file", err)
			os.Exit(3)
		}
		bad := false
		for _, fl := range cf.Failures {
			c, _ := hex.DecodeString(fl.Case)
			f := findFamily(p.Families(tier), fl.Family)
			if f == nil {
				fmt.Println("unknown family", fl.Family)
				continue
			}
			msg := ""
			if f.Variant == "" {
				msg = execCase(f, newT(tier), c)
			} else {
				os.Setenv("GORACE", "halt_on_error=1 exitcode=66")
				self, _ := os.Executable()
				fams, fi := p.Families(tier), 0
				for fams[fi].Name != fl.Family {
					fi++
				}
				out, err := exec.Command(self+"-"+f.Variant, "-prop="+p.ID, "-tier="+tier, "-case="+strconv.Itoa(fi)+":"+fl.Case).CombinedOutput()
				if err != nil {
					msg = string(out) + err.Error()
				}
			}
			if msg != "" {
				bad = true
			} else {
				msg = "passes"
			}
			fmt.Printf("%s %s: %s\n", fl.Family, show(f, c), msg)
		}
		if bad {
			os.Exit(1)
		}
		os.Exit(0)
	}
	os.Exit(parent(p, tier, args["root"], budget, args["family"]))
}

func parent(p *Property, tier, root string, budget int, filter string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "vc-"+p.ID+"-")
	if err != nil {
		dir = filepath.Join(root, ".build", "tmp-"+p.ID)
		os.MkdirAll(dir, 0o755)
	}
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	if err != nil {
		self = os.Args[0]
	}
	var cmds []*exec.Cmd
	var cmdMu sync.Mutex
	sigc := make(chan os.Signal, 4)
	signal.Notify(sigc, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-sigc
		cmdMu.Lock()
		for _, cmd := range cmds {
			if cmd.Process != nil {
				cmd.Process.Kill()
			}
		}
		os.RemoveAll(dir)
		os.Exit(2)
	}()
	setCmd := func(c *exec.Cmd) { cmdMu.Lock(); cmds = append(cmds, c); cmdMu.Unlock() }
	res := result{Exhaustive: true}
	verdict := true
	variants := []string{}
	for _, f := range p.Families(tier) {
		known := false
		for _, v := range variants {
			known = known || v == f.Variant
		}
		if !known && (filter == "" || strings.HasPrefix(f.Name, filter)) {
			variants = append(variants, f.Variant)
		}
	}
	for _, v := range variants {
		exe := self
		if v != "" {
			exe += "-" + v
		}
		var one result
		var ok bool
		if v == "sched" || v == "order" {
			one, ok = runShards(p, tier, dir, exe, v, budget-int(time.Since(start).Seconds()), filter, setCmd)
		} else {
			one, ok = runVariant(p, tier, dir, exe, v, budget-int(time.Since(start).Seconds()), filter, setCmd, 0, "")
		}
		verdict = verdict && ok
		res.merge(one)
		if len(one.Failures) > 0 {
			break
		}
	}
	// known findings
	var real []caseFailure
	finds := loadFindings(filepath.Join(root, "known-findings.txt"))
	known := 0
	if filter == "" {
		fams := p.Families(tier)
		for _, fd := range finds {
			if fd.prop != p.ID {
				continue
			}
			f := findFamily(fams, fd.family)
			c, _ := hex.DecodeString(fd.hexcase)
			if f != nil && f.Variant == "" && execCase(f, newT(tier), c) != "" {
				known++
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, fd.what)
			}
		}
	}
	for _, fl := range res.Failures {
		skip := false
		for _, fd := range finds {
			if fd.prop == p.ID && fd.family == fl.Family && fd.hexcase == fl.Case {
				skip = true
			}
		}
		if !skip {
			real = append(real, fl)
		}
	}
	exit := 0
	if len(real) > 0 {
		exit = 1
		rdir := filepath.Join(root, "evidence", "replay")
		os.MkdirAll(rdir, 0o755)
		rp := filepath.Join(rdir, p.ID+".json")
		b, _ := json.MarshalIndent(map[string]interface{}{"property": p.ID, "tier": tier, "failures": real,
			"how": "replay with: bin/check " + p.ID + " -replay=" + rp}, "", " ")
		os.WriteFile(rp, b, 0o644)
		for i, fl := range real {
			if i >= 3 {
				break
			}
			m := fl.Msg
			if len(m) > 1500 {
				m = m[:1500] + "…"
			}
			s := fl.Show
			if len(s) > 600 {
				s = s[:600] + "…"
			}
			fmt.Printf("# %s case %s\n#   %s\n#   (%s)\n", fl.Family, s, strings.ReplaceAll(m, "\n", "\n#   "), fl.Reruns)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
	}
	if !verdict && exit == 0 {
		exit = 2
	}
	writeEvidence(p, tier, root, &res, len(real), known, time.Since(start).Seconds())
	fmt.Printf("%s %s: states=%d transitions=%d executions=%d exhaustive=%v wall=%.1fs violations=%d\n", p.ID, tier, res.States, res.Transitions, res.Executions, res.Exhaustive, time.Since(start).Seconds(), len(real))
	return exit
}

func (r *result) merge(o result) {
	r.Failures = append(r.Failures, o.Failures...)
	r.Families = append(r.Families, o.Families...)
	r.States += o.States
	r.StatesFull = r.StatesFull || o.StatesFull
	r.Transitions += o.Transitions
	r.Executions += o.Executions
	r.Samples = append(r.Samples, o.Samples...)
	r.Exhaustive = r.Exhaustive && o.Exhaustive
	r.Notes = append(r.Notes, o.Notes...)
	for what, n := range o.Counts {
		if r.Counts == nil {
			r.Counts = map[string]int{}
		}
		r.Counts[what] += n
	}
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// runShards divides the cases of a variant among one process per core.
func runShards(p *Property, tier, dir, self, variant string, budget int, filter string, setCmd func(*exec.Cmd)) (res result, verdict bool) {
	n := runtime.GOMAXPROCS(0)
	claims := filepath.Join(dir, "claims-"+variant)
	os.WriteFile(claims, make([]byte, 8*numClaims), 0o644)
	results := make([]result, n)
	oks := make([]bool, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			d := filepath.Join(dir, variant+strconv.Itoa(i))
			os.MkdirAll(d, 0o755)
			results[i], oks[i] = runVariant(p, tier, d, self, variant, budget, filter, setCmd, n, claims)
		}(i)
	}
	wg.Wait()
	res.Exhaustive, verdict = true, true
	all := &hashSet{}
	for i := range results {
		fams := res.Families
		res.merge(results[i])
		if i > 0 && len(fams) == len(results[i].Families) {
			for k := range fams {
				fams[k].Cases += results[i].Families[k].Cases
				fams[k].Exhaustive = fams[k].Exhaustive && results[i].Families[k].Exhaustive
				fams[k].Wall = max(fams[k].Wall, results[i].Families[k].Wall)
			}
			res.Families = fams
		}
		verdict = verdict && oks[i]
		b, _ := os.ReadFile(filepath.Join(dir, variant+strconv.Itoa(i), "out.json.states"))
		for len(b) >= 8 {
			all.add(binary.LittleEndian.Uint64(b))
			b = b[8:]
		}
	}
	res.States, res.StatesFull = int64(all.n), res.StatesFull || all.full
	var notes []string
	seen := map[string]bool{}
	for _, s := range res.Notes {
		if !seen[s] {
			seen[s] = true
			notes = append(notes, s)
		}
	}
	res.Notes = notes
	if len(res.Failures) > 0 {
		sort.SliceStable(res.Failures, func(i, j int) bool { return len(res.Failures[i].raw) < len(res.Failures[j].raw) })
		verdict = true
	}
	return res, verdict
}

// runVariant explores the families of one build variant in a child process.
func runVariant(p *Property, tier, dir, self, variant string, budget int, filter string, setCmd func(*exec.Cmd), shards int, claims string) (res result, verdict bool) {
	if budget < 10 {
		budget = 10
	}
	verdict = true
	if variant == "race" || variant == "sched" {
		os.Setenv("GORACE", "halt_on_error=1 exitcode=66 history_size=3")
	}
	slots := filepath.Join(dir, "slots")
	var infra string
	ok := false
	for attempt := 0; attempt < 2 && !ok; attempt++ {
		os.WriteFile(slots, make([]byte, slotSize*numSlots), 0o644)
		procs := shards
		if attempt > 0 && shards > 1 {
			procs = 1 // the cases claimed by the first attempt are lost: explore all of them
		}
		out := filepath.Join(dir, "out.json")
		os.Remove(out)
		os.Remove(out + ".hang")
		cmd := exec.Command(self, "-prop="+p.ID, "-tier="+tier, "-variant="+variant, "-child="+out, "-slots="+slots, "-budget="+strconv.Itoa(budget), "-family="+filter, "-shards="+strconv.Itoa(procs), "-claims="+claims)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var errb tail
		cmd.Stderr = &errb
		cmd.Stdout = os.Stderr
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			infra = err.Error()
			continue
		}
		setCmd(cmd)
		go func() { done <- cmd.Wait() }()
		var werr error
		select {
		case werr = <-done:
		case <-time.After(time.Duration(budget+90) * time.Second):
			cmd.Process.Kill()
			<-done
			werr = fmt.Errorf("no answer within budget")
		}
		if os.Getenv("VERIF_VERBOSE") != "" {
			os.Stderr.Write(errb.b)
		}
		if werr == nil {
			b, e := os.ReadFile(out)
			if e == nil && json.Unmarshal(b, &res) == nil {
				ok = true
				break
			}
			infra = "no result file"
			continue
		}
		infra = fmt.Sprintf("child ended: %v\n%s", werr, errb.String())
		// attribute
		sl, _ := os.ReadFile(slots)
		fams := p.Families(tier)
		var fails []caseFailure
		tried := map[string]bool{}
		for i := 0; i < numSlots && len(sl) == slotSize*numSlots; i++ {
			b := sl[i*slotSize:]
			if b[0] == 0 {
				continue
			}
			fi := int(*(*uint32)(unsafe.Pointer(&b[4])))
			n := int(*(*uint32)(unsafe.Pointer(&b[8])))
			if fi >= len(fams) || n > slotSize-16 || fams[fi].Check == nil {
				continue
			}
			c := append([]byte(nil), b[16:16+n]...)
			key := strconv.Itoa(fi) + ":" + hex.EncodeToString(c)
			if tried[key] || len(key) > 120000 {
				continue
			}
			tried[key] = true
			bad, msg := 0, ""
			to := 60 * time.Second
			if fams[fi].Timeout != 0 {
				to = fams[fi].Timeout
			}
			for k := 0; k < 3; k++ {
				one := exec.Command(self, "-prop="+p.ID, "-tier="+tier, "-case="+key)
				one.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				var o tailHead
				one.Stdout, one.Stderr = &o, &o
				if one.Start() != nil {
					continue
				}
				tm := time.AfterFunc(to, func() { one.Process.Kill() })
				e := one.Wait()
				fired := !tm.Stop()
				if e != nil {
					bad++
					if fired {
						msg = "does not terminate"
					} else {
						msg = o.String()
					}
				}
				if bad == 0 && k == 1 {
					break
				}
			}
			if bad > 0 {
				fails = append(fails, caseFailure{Family: fams[fi].Name, Case: hex.EncodeToString(c), Show: show(&fams[fi], c), Msg: "the process running this case died: " + msg, Reruns: fmt.Sprintf("%d of 3 isolated re-runs die", bad), raw: c})
			}
		}
		if len(fails) > 0 {
			res = result{Failures: fails, Notes: []string{infra}, Executions: int64(len(tried))}
			ok = true
		}
	}
	if !ok {
		// The exploration itself died twice and no single case explains it.
		if strings.Contains(infra, "fatal error:") || strings.Contains(infra, "panic:") || strings.Contains(infra, "SIGSEGV") {
			res = result{Failures: []caseFailure{{Family: "(whole run)", Show: "(whole run)", Msg: infra}}}
		} else {
			fmt.Fprintln(os.Stderr, "no verdict:", infra)
			res = result{Notes: []string{"no verdict: " + infra}}
			verdict = false
		}
	}
	return res, verdict
}

func writeEvidence(p *Property, tier, root string, res *result, nviol, known int, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	samples := []interface{}{}
	seen := map[string]int{}
	for _, s := range res.Samples {
		if seen[s.Family] < 4 {
			seen[s.Family]++
			if len(s.Case) > 300 {
				s.Case = s.Case[:300] + "…"
			}
			samples = append(samples, s)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov := map[string]interface{}{
		"states":                        res.States,
		"transitions":                   res.Transitions,
		"traces_validated_against_impl": res.Executions,
		"samples":                       samples,
		"exhaustive":                    res.Exhaustive,
		"families":                      res.Families,
		"states_is_lower_bound":         res.StatesFull,
		"notes":                         res.Notes,
		"counts":                        res.Counts,
		"known_findings_seen":           known,
		"meaning":                       "states: distinct reference-model states (expected outcomes) reached; transitions: model steps executed; traces: complete executions of the real code compared with the model",
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": append([]string{}, p.Assumptions...), "wall_s": wall, "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), b, 0o644)
}

// tail keeps the first 16K and last 16K of what is written.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append(t.b[:16<<10], t.b[len(t.b)-(32<<10):]...)
	}
	return len(p), nil
}
func (t *tail) String() string {
	s := string(t.b)
	if len(s) > 3000 {
		s = s[:1500] + "\n…\n" + s[len(s)-1500:]
	}
	return s
}

type tailHead struct{ b []byte }

func (t *tailHead) Write(p []byte) (int, error) {
	if len(t.b) < 2000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailHead) String() string {
	if len(t.b) > 2000 {
		return string(t.b[:2000])
	}
	return string(t.b)
}
