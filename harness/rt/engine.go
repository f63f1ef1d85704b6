package rt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// T is handed to a property; it carries the choices and the bookkeeping of one case.
type T struct {
	*Source
	Idx      int
	key      uint64
	hasKey   bool
	nontriv  bool
	labels   []string
	info     []string
	sample   func() string
	quiet    bool
	worker   int
	deferred []func()
}

type failure struct{ msg string }
type skip struct{}

// Fatalf reports that the property is violated.
func (t *T) Fatalf(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }

// Skip discards the case.
func (t *T) Skip() { panic(skip{}) }

// Logf adds a line to the description of the case, shown if it fails.
func (t *T) Logf(format string, a ...any) {
	if !t.quiet {
		t.info = append(t.info, fmt.Sprintf(format, a...))
	}
}

// Log is like Logf with the text built only if the case fails.
func (t *T) LogLazy(f func() string) {
	if !t.quiet {
		t.info = append(t.info, "")
		i := len(t.info) - 1
		t.deferred = append(t.deferred, func() {
			defer func() {
				if e := recover(); e != nil {
					t.info[i] = fmt.Sprintf("<panic while describing the case: %v>", e)
				}
			}()
			t.info[i] = f()
		})
	}
}

// Label counts the case in a class.
func (t *T) Label(l string) { t.labels = append(t.labels, l) }

// LabelIf counts the case in a class if c holds.
func (t *T) LabelIf(c bool, l string) {
	if c {
		t.Label(l)
	}
}

// Key identifies the case for counting distinct ones.
func (t *T) Key(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0xff})
	}
	t.key, t.hasKey = h.Sum64(), true
}

// NonTrivial marks the case as non-trivial if c holds.
func (t *T) NonTrivial(c bool) { t.nontriv = t.nontriv || c }

// Sample provides the text of the case for the evidence file.
func (t *T) Sample(f func() string) { t.sample = f }

// Suite is one generated check of a property.
type Suite struct {
	Name     string
	Quick    int // number of cases
	Thorough int
	Rule     string // what a case is and when it is non-trivial
	Workers  int    // 0: all CPUs
	Fn       func(t *T)
}

// Prop is a property with its suites.
type Prop struct {
	ID     string
	Suites []Suite
}

type suiteStats struct {
	mu       sync.Mutex
	Evals    int64
	Skipped  int64
	NonTriv  int64
	distinct map[uint64]struct{}
	Labels   map[string]int64
	Samples  []string
}

// Violation is what the runner turns into a replay file.
type Violation struct {
	Property string   `json:"property"`
	Program  string   `json:"program,omitempty"`
	Suite    string   `json:"suite"`
	Seed     uint64   `json:"seed"`
	Index    int      `json:"index"`
	Kind     string   `json:"kind"` // fail, panic, hang, deadlock
	Message  string   `json:"message"`
	Case     []string `json:"case"`
	Choices  []uint64 `json:"choices"`
	Stack    string   `json:"stack,omitempty"`
	Shrunk   int      `json:"shrink_runs"`
}

var (
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagSeed    = flag.Uint64("seed", 1, "seed")
	flagOut     = flag.String("out", "", "directory for result files")
	flagSuite   = flag.String("suite", "", "only this suite")
	flagCase    = flag.Int("case", -1, "only this case of -suite")
	flagReplay  = flag.String("replay", "", "replay file (JSON with suite and choices)")
	flagScale   = flag.Float64("scale", 1, "multiplies the number of cases")
	flagWorkers = flag.Int("workers", 0, "number of workers")
	flagShrink  = flag.Int("shrink", 2500, "maximum number of runs spent on shrinking")
)

// Tier returns the tier of this run.
func Tier() string { return *flagTier }

// Seed returns the seed of this run.
func Seed() uint64 { return *flagSeed }

// OutDir is a scratch directory that the runner removes.
func OutDir() string { return *flagOut }

type slot struct {
	idx   atomic.Int64 // case running, or -1
	tid   atomic.Int64
	start atomic.Int64 // thread CPU (ticks) at the start of the case
}

var (
	journalMu  sync.Mutex
	slots      []*slot
	progress   atomic.Int64
	curSuite   atomic.Pointer[string]
	journalMem []byte // mmapped: one line of 64 bytes per worker
)

const jslot = 160

func openJournal() {
	if *flagOut == "" {
		return
	}
	f, err := os.Create(filepath.Join(*flagOut, "journal"))
	if err != nil {
		panic(err)
	}
	defer f.Close()
	n := jslot * 64
	if err := f.Truncate(int64(n)); err != nil {
		panic(err)
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	journalMem = m
}

func journal(w int, suite string, idx int) {
	if journalMem == nil || w >= 64 {
		return
	}
	line := journalMem[w*jslot : (w+1)*jslot]
	b := make([]byte, 0, jslot)
	b = append(b, suite...)
	if len(b) > jslot-40 {
		b = b[:jslot-40]
	}
	b = append(b, ' ')
	b = strconv.AppendInt(b, int64(idx), 10)
	for len(b) < jslot-1 {
		b = append(b, ' ')
	}
	b = append(b, '\n')
	copy(line, b)
}

func threadCPU(tid int64) int64 { // clock ticks
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/stat", tid))
	if err != nil {
		return 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		s = s[i+1:]
	}
	f := strings.Fields(s)
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	return u + k
}

func procCPU() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// HangCPU is the CPU time one case may burn before it counts as not terminating.
var HangCPU int64 = 60 * 100 // clock ticks

func watchdog(p *Prop) {
	lastProg := progress.Load()
	idle := 0
	cpu0 := procCPU()
	for {
		time.Sleep(time.Second)
		name := ""
		if n := curSuite.Load(); n != nil {
			name = *n
		}
		for _, s := range slots {
			idx := s.idx.Load()
			if idx < 0 {
				continue
			}
			used := threadCPU(s.tid.Load()) - s.start.Load()
			if s.idx.Load() == idx && used > HangCPU {
				die(p, name, int(idx), "hang", fmt.Sprintf("the case did not terminate within %d s of CPU time of its thread", HangCPU/100))
			}
		}
		if pr := progress.Load(); pr != lastProg || name == "" {
			lastProg, idle, cpu0 = pr, 0, procCPU()
			continue
		}
		idle++
		if idle >= 90 {
			if used := procCPU() - cpu0; used < 2*time.Second {
				idx := -1
				for _, s := range slots {
					if i := s.idx.Load(); i >= 0 {
						idx = int(i)
					}
				}
				die(p, name, idx, "deadlock", "no case made progress and the process was idle for 90 s")
			}
			idle, cpu0 = 0, procCPU()
		}
	}
}

// memGuard ends the process when it uses more memory than any correct case
// needs, before the machine runs out of it. (RSS limits in MB)
func memGuard(limit int64) {
	debug.SetMaxStack(512 << 20)
	for {
		time.Sleep(30 * time.Millisecond)
		if rss := memUse(); rss > limit {
			fmt.Fprintf(os.Stderr, "fatal error: the process uses %d MB of memory\n", rss)
			os.Exit(2)
		}
	}
}

// memUse is the resident memory in MB.
func memUse() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize()) >> 20
}

func die(p *Prop, suite string, idx int, kind, msg string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	v := &Violation{Property: p.ID, Suite: suite, Seed: *flagSeed, Index: idx, Kind: kind, Message: msg, Stack: clip(string(buf), 20000)}
	writeViolation(v)
	os.Exit(1)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeViolation(v *Violation) {
	b, _ := json.MarshalIndent(v, "", " ")
	if *flagOut != "" {
		os.WriteFile(filepath.Join(*flagOut, "violation.json"), b, 0o644)
	}
	fmt.Printf("FAIL property=%s suite=%s index=%d kind=%s\n%s\n", v.Property, v.Suite, v.Index, v.Kind, v.Message)
	for _, c := range v.Case {
		fmt.Println("  " + clip(c, 4000))
	}
}

// runOne runs the property once and returns a violation or nil.
func runOne(p *Prop, s *Suite, t *T) (v *Violation, skipped bool) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		if _, ok := e.(skip); ok {
			skipped = true
			return
		}
		for _, f := range t.deferred {
			f()
		}
		v = &Violation{Property: p.ID, Suite: s.Name, Seed: *flagSeed, Index: t.Idx, Choices: t.Choices, Case: t.info}
		if f, ok := e.(failure); ok {
			v.Kind, v.Message = "fail", f.msg
			return
		}
		if m, ok := e.(string); ok && strings.HasPrefix(m, "harness:") {
			// the harness contradicts itself: no statement about the code
			fmt.Printf("HARNESS ERROR property=%s suite=%s index=%d: %s\n%s\n", p.ID, s.Name, t.Idx, m, debug.Stack())
			os.Exit(3)
		}
		v.Kind, v.Message, v.Stack = "panic", fmt.Sprintf("panic: %v", e), clip(string(debug.Stack()), 6000)
	}()
	s.Fn(t)
	return nil, false
}

func newSource(suite string, idx int) *Source {
	h := fnv.New64a()
	h.Write([]byte(suite))
	return &Source{p: prng{mix(mix(*flagSeed, h.Sum64()), uint64(idx))}}
}

func shrink(p *Prop, s *Suite, v *Violation) *Violation {
	best := v
	runs := 0
	deadline := time.Now().Add(25 * time.Second)
	try := func(c []uint64) bool {
		if runs >= *flagShrink || time.Now().After(deadline) {
			return false
		}
		runs++
		t := &T{Source: NewReplay(c), Idx: v.Index}
		nv, _ := runOne(p, s, t)
		if nv == nil || nv.Kind != v.Kind {
			return false
		}
		if !simpler(nv.Choices, best.Choices) {
			return false
		}
		best = nv
		return true
	}
	for improved := true; improved && runs < *flagShrink; {
		improved = false
		// delete blocks
		for _, k := range []int{256, 64, 32, 16, 8, 4, 3, 2, 1} {
			for i := len(best.Choices) - k; i >= 0; {
				if i+k > len(best.Choices) {
					i = len(best.Choices) - k
					if i < 0 {
						break
					}
				}
				c := append(append([]uint64{}, best.Choices[:i]...), best.Choices[i+k:]...)
				if try(c) {
					improved = true
				}
				i -= k
			}
		}
		// zero blocks
		for _, k := range []int{32, 8, 4, 2, 1} {
			for i := 0; i+k <= len(best.Choices); i += k {
				c := append([]uint64{}, best.Choices...)
				ch := false
				for j := i; j < i+k; j++ {
					ch = ch || c[j] != 0
					c[j] = 0
				}
				if ch && try(c) {
					improved = true
				}
			}
		}
		// lower single values
		for i := 0; i < len(best.Choices); i++ {
			for lo := uint64(0); i < len(best.Choices) && best.Choices[i] > lo; {
				x := best.Choices[i]
				mid := lo + (x-lo)/2
				c := append([]uint64{}, best.Choices...)
				c[i] = mid
				if try(c) {
					improved = true
					continue
				}
				if mid+1 >= x {
					break
				}
				lo = mid + 1
			}
		}
	}
	best.Shrunk = runs
	best.Index = v.Index
	return best
}

func simpler(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func runSuite(p *Prop, s *Suite) (*suiteStats, *Violation) {
	n := s.Quick
	if *flagTier == "thorough" {
		n = s.Thorough
		if n == 0 {
			n = s.Quick * 10
		}
	}
	n = int(float64(n) * *flagScale)
	if n < 1 {
		n = 1
	}
	w := runtime.GOMAXPROCS(0)
	if s.Workers > 0 {
		w = s.Workers
	}
	if *flagWorkers > 0 {
		w = *flagWorkers
	}
	if w > n {
		w = n
	}
	if w > 60 {
		w = 60
	}
	st := &suiteStats{distinct: map[uint64]struct{}{}, Labels: map[string]int64{}}
	name := s.Name
	var next atomic.Int64
	var failMu sync.Mutex
	var failed *Violation
	var wg sync.WaitGroup
	ns := make([]*slot, w)
	for i := range ns {
		ns[i] = &slot{}
		ns[i].idx.Store(-1)
	}
	slots = ns
	curSuite.Store(&name)
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func(wi int) {
			defer wg.Done()
			runtime.LockOSThread()
			debug.SetPanicOnFault(true)
			sl := ns[wi]
			tid := int64(syscall.Gettid())
			sl.tid.Store(tid)
			for {
				idx := int(next.Add(1) - 1)
				if idx >= n {
					journal(wi, "-", -1)
					return
				}
				failMu.Lock()
				stop := failed != nil && failed.Index < idx
				failMu.Unlock()
				if stop {
					return
				}
				journal(wi, s.Name, idx)
				if idx%16 == 0 || sl.start.Load() == 0 {
					sl.start.Store(threadCPU(tid))
				}
				sl.idx.Store(int64(idx))
				t := &T{Source: newSource(s.Name, idx), Idx: idx, worker: wi}
				v, skipped := runOne(p, s, t)
				sl.idx.Store(-1)
				progress.Add(1)
				if v != nil {
					failMu.Lock()
					if failed == nil || v.Index < failed.Index {
						failed = v
					}
					failMu.Unlock()
					return
				}
				st.mu.Lock()
				if skipped {
					st.Skipped++
				} else {
					st.Evals++
					for _, l := range t.labels {
						st.Labels[l]++
					}
					if t.nontriv {
						st.NonTriv++
						if !t.hasKey {
							t.Key(fmt.Sprint(t.Choices))
						}
						if _, ok := st.distinct[t.key]; !ok {
							st.distinct[t.key] = struct{}{}
							if len(st.Samples) < 2 && t.sample != nil && idx > 3 {
								st.Samples = append(st.Samples, clip(t.sample(), 1500))
							}
						}
					}
				}
				st.mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	if failed != nil {
		for _, sl := range ns {
			sl.idx.Store(-1)
		}
		journal(0, s.Name, failed.Index)
		// confirm: a failure that does not repeat alone is still reported
		// (it depended on what ran concurrently), unshrunk.
		progress.Add(1)
		t := &T{Source: NewReplay(failed.Choices), Idx: failed.Index}
		if v2, _ := runOne(p, s, t); v2 != nil && v2.Kind == failed.Kind {
			failed = shrink(p, s, v2)
		} else {
			failed.Message += " [did not repeat when run alone]"
		}
	}
	return st, failed
}

// Main runs the property chosen on the command line.
func Main(props []Prop) {
	flag.Parse()
	var p *Prop
	for i := range props {
		if props[i].ID == *flagProp {
			p = &props[i]
		}
	}
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *flagProp)
		os.Exit(2)
	}
	if *flagReplay != "" {
		replay(p)
		return
	}
	if *flagCase >= 0 {
		single(p)
		return
	}
	openJournal()
	go watchdog(p)
	go memGuard(14000)
	type suiteOut struct {
		Name, Rule string
		Evals      int64
		Skipped    int64
		NonTrivial int64
		Distinct   int
		Labels     map[string]int64
		Samples    []string
		WallS      float64
	}
	var outs []suiteOut
	for i := range p.Suites {
		s := &p.Suites[i]
		if *flagSuite != "" && s.Name != *flagSuite {
			continue
		}
		t0 := time.Now()
		st, v := runSuite(p, s)
		if v != nil {
			writeViolation(v)
			os.Exit(1)
		}
		outs = append(outs, suiteOut{s.Name, s.Rule, st.Evals, st.Skipped, st.NonTriv, len(st.distinct), st.Labels, st.Samples, time.Since(t0).Seconds()})
		fmt.Printf("ok %s/%s: %d cases, %d skipped, %d distinct non-trivial, %.1fs%s\n", p.ID, s.Name, st.Evals, st.Skipped, len(st.distinct), time.Since(t0).Seconds(), labelText(st.Labels, st.Evals))
	}
	var ks []string
	known.Range(func(k, _ any) bool { ks = append(ks, k.(string)); return true })
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k)
	}
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	Notes["peak_rss_mb"] = ru.Maxrss >> 10
	b, _ := json.MarshalIndent(map[string]any{"suites": outs, "notes": Notes}, "", " ")
	if *flagOut != "" {
		if err := os.WriteFile(filepath.Join(*flagOut, "result.json"), b, 0o644); err != nil {
			panic(err)
		}
	}
}

var known sync.Map

// Known says that a known finding (known-findings.txt) was met.
func Known(prop, what string) {
	known.Store("KNOWN-FINDING: property="+prop+" "+what, true)
}

// Notes are extra facts for the evidence file.
var Notes = map[string]any{}

func labelText(m map[string]int64, n int64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, " %s=%d", k, m[k])
	}
	return b.String()
}

func findSuite(p *Prop, name string) *Suite {
	for i := range p.Suites {
		if p.Suites[i].Name == name {
			return &p.Suites[i]
		}
	}
	fmt.Fprintf(os.Stderr, "unknown suite %q\n", name)
	os.Exit(2)
	return nil
}

// single runs one case, writing its choices through to a file so that they
// survive a crash of the process.
func single(p *Prop) {
	s := findSuite(p, *flagSuite)
	src := newSource(s.Name, *flagCase)
	if *flagOut != "" {
		f, err := os.Create(filepath.Join(*flagOut, "choices"))
		if err != nil {
			panic(err)
		}
		src.trace = func(v uint64) { fmt.Fprintln(f, v) }
	}
	one(p, s, &T{Source: src, Idx: *flagCase})
}

func replay(p *Prop) {
	b, err := os.ReadFile(*flagReplay)
	if err != nil {
		panic(err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		panic(err)
	}
	s := findSuite(p, v.Suite)
	src := NewReplay(v.Choices)
	if v.Choices == nil {
		*flagSeed = v.Seed
		src = newSource(s.Name, v.Index)
	}
	one(p, s, &T{Source: src, Idx: v.Index})
}

func one(p *Prop, s *Suite, t *T) {
	name := s.Name
	sl := &slot{}
	sl.tid.Store(int64(syscall.Gettid()))
	slots = []*slot{sl}
	curSuite.Store(&name)
	runtime.LockOSThread()
	sl.start.Store(threadCPU(int64(syscall.Gettid())))
	sl.idx.Store(int64(t.Idx))
	go watchdog(p)
	go memGuard(5000)
	debug.SetPanicOnFault(true)
	v, skipped := runOne(p, s, t)
	if v != nil {
		writeViolation(v)
		os.Exit(1)
	}
	for _, f := range t.deferred {
		f()
	}
	fmt.Printf("PASS suite=%s index=%d skipped=%v\n", s.Name, t.Idx, skipped)
	for _, c := range t.info {
		fmt.Println("  " + clip(c, 4000))
	}
}
