// Package engine runs a check's cases on the code under test, watches for
// panics, faults, runaway executions and violated expectations, and accounts
// for what was observed.
package engine

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"zpverif/gen"
)

// Check is one property's machinery.
type Check struct {
	ID          string
	Rule        string // how cases are made and what makes one non-trivial
	Assumptions []string
	Quick       int // cases
	Thorough    int
	Serial      bool // run on one goroutine only
	Variants    []Variant
	// Setup runs once per process, before any case (oracle self-tests). An
	// error makes the run inconclusive.
	Setup func(env *Env) error
	// Run executes one case.
	Run func(t *T)
	// MemoryFatal: the runtime finding memory corrupted is a violation whoever
	// was running at the time (the harness around this check uses no unsafe
	// memory of its own).
	MemoryFatal bool
	// Need lists event kinds that must have been observed for the run to count.
	Need []string
	// Whole, if set, replaces the case loop: the check drives itself in the
	// parent process (it builds programs and runs them).
	Whole func(w *Whole)
}

// Variant is one build of the harness the cases run under.
type Variant struct {
	Name  string
	Env   []string // for go build
	Flags []string // for go build
	Run   []string // environment of the run
	Share float64  // share of the cases, on top of which the next variant's follow
	Race  bool
	// Optional variants are left out (and reported) when they cannot be built
	// or executed here.
	Optional bool
	// Extra variants run in addition: events need not all be seen in them.
	Extra bool
}

// Env is the process's surroundings.
type Env struct {
	Seed    int64
	Tier    string
	Scratch string
	Variant string
}

// violation is the panic value of T.Fail.
type violation struct{ msg string }

// T is one case.
type T struct {
	R       *gen.Rng
	N       int
	Env     *Env
	w       *worker
	trace   []string
	tracing bool
	sample  string
	sig     uint64
	nonTriv bool
}

// Logf records a step; it is formatted only when the case is re-run to report.
func (t *T) Logf(f string, a ...interface{}) {
	if t.tracing {
		if len(t.trace) < 4000 {
			t.trace = append(t.trace, fmt.Sprintf(f, a...))
		}
	}
}

// Fail reports a violation and ends the case.
func (t *T) Fail(f string, a ...interface{}) {
	panic(violation{fmt.Sprintf(f, a...)})
}

// Ev counts an observed event.
func (t *T) Ev(kind string) { t.w.events[kind]++ }

// EvN counts n of them.
func (t *T) EvN(kind string, n int) { t.w.events[kind] += int64(n) }

// NonTrivial marks the case as one that exercised the property, identified by
// what it consisted of.
func (t *T) NonTrivial(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0})
	}
	t.sig = t.sig*1099511628211 ^ h.Sum64()
	t.nonTriv = true
}

// Sample describes the case for the evidence file.
func (t *T) Sample(f func() string) {
	if t.w.wantSample && t.sample == "" {
		t.sample = f()
	}
}

// Arena is the worker's guarded memory.
func (t *T) Arena() *Arena {
	if t.w.arena == nil {
		t.w.arena = NewArena(1 << 18)
	}
	return t.w.arena
}

// Known reports that a listed known finding was observed.
func (t *T) Known(key string) { t.w.known[key]++ }

type worker struct {
	tid        int
	cur        atomic.Int64 // case number
	events     map[string]int64
	known      map[string]int64
	sigs       map[uint64]struct{}
	samples    []string
	wantSample bool
	evals      int64
	nontriv    int64
	arena      *Arena
}

// Result is what a process observed.
type Result struct {
	Verdict     string // held, violation, error
	Message     string
	Case        int
	Trace       []string
	Evaluations int64
	NonTrivial  int64
	Distinct    int64
	Events      map[string]int64
	Known       map[string]int64
	Samples     []string
	Variant     string
	WallS       float64
}

type failure struct {
	n     int
	msg   string
	kind  string // violation or error
	trace []string
}

// classify decides who is to blame for a panic from the stack at the time.
func classify(r interface{}) (kind, msg string) {
	if v, ok := r.(violation); ok {
		return "violation", v.msg
	}
	msg = fmt.Sprint(r)
	type addr interface{ Addr() uintptr }
	if e, ok := r.(addr); ok {
		return "violation", fmt.Sprintf("memory fault at %#x (access outside the message or write to read-only bytes): %s\n%s", e.Addr(), msg, stackOf())
	}
	if strings.HasPrefix(msg, "harness:") {
		return "error", msg
	}
	pcs := make([]uintptr, 200)
	n := runtime.Callers(0, pcs)
	frames := runtime.CallersFrames(pcs[:n])
	past := false
	for {
		f, more := frames.Next()
		if strings.HasPrefix(f.Function, "runtime.gopanic") || strings.HasPrefix(f.Function, "runtime.sigpanic") {
			past = true
		}
		if past {
			if strings.HasPrefix(f.Function, "github.com/danhhz/zeropb") {
				return "violation", fmt.Sprintf("panic in %s: %s\n%s", f.Function, msg, stackOf())
			}
			if strings.HasPrefix(f.Function, "zpverif/") || strings.HasPrefix(f.Function, "main.") {
				return "error", fmt.Sprintf("panic in the harness (%s): %s\n%s", f.Function, msg, debug.Stack())
			}
		}
		if !more {
			break
		}
	}
	return "error", fmt.Sprintf("unattributed panic: %s\n%s", msg, debug.Stack())
}

func stackOf() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "danhhz/zeropb") {
			out = append(out, strings.TrimSpace(l))
			if i+1 < len(lines) {
				out = append(out, strings.TrimSpace(lines[i+1]))
			}
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, " | ")
}

// RunOne executes case n and returns its failure, if any.
func (c *Check) RunOne(env *Env, w *worker, n int, tracing bool) (fail *failure) {
	t := &T{R: gen.New(env.Seed, c.ID, n), N: n, Env: env, w: w, tracing: tracing}
	defer func() {
		w.evals++
		if r := recover(); r != nil {
			kind, msg := classify(r)
			fail = &failure{n: n, msg: msg, kind: kind, trace: t.trace}
			if w.arena != nil {
				w.arena.Reset()
			}
			return
		}
		if t.nonTriv {
			w.nontriv++
			w.sigs[t.sig] = struct{}{}
			if t.sample != "" && len(w.samples) < 3 {
				w.samples = append(w.samples, fmt.Sprintf("case %d: %s", n, t.sample))
			}
		}
	}()
	c.Run(t)
	return nil
}

func newWorker() *worker {
	w := &worker{events: map[string]int64{}, known: map[string]int64{}, sigs: map[uint64]struct{}{}}
	w.cur.Store(-1)
	return w
}

// threadCPU is the CPU time a thread of this process has used, in seconds.
func threadCPU(tid int) float64 {
	b, err := os.ReadFile("/proc/self/task/" + strconv.Itoa(tid) + "/stat")
	if err != nil {
		return 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 12 {
			u, _ := strconv.ParseFloat(f[11], 64)
			v, _ := strconv.ParseFloat(f[12], 64)
			return (u + v) / 100
		}
	}
	return 0
}

// HangCPU is how much CPU time one case may use; cases need milliseconds.
var HangCPU = 30.0

// quiet is held while the process must do nothing but run the case.
var quiet sync.Mutex

// Quiet runs f without the watchdog interfering (it allocates).
func Quiet(f func()) {
	quiet.Lock()
	defer quiet.Unlock()
	f()
}

// HeapCap is the heap size treated as unbounded growth.
var HeapCap = uint64(6 << 30)

// RunCases executes cases [from, to) and writes the result to out. A non-nil
// only list restricts it to those.
func (c *Check) RunCases(env *Env, from, to int, curFile string, finish func(*Result)) {
	start := time.Now()
	debug.SetGCPercent(200)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if c.Serial {
		nw = 1
	}
	if to-from < nw {
		nw = to - from
	}
	res := &Result{Case: -1, Variant: env.Variant}
	if c.Setup != nil {
		if err := c.Setup(env); err != nil {
			res.Verdict, res.Message = "error", "setup: "+err.Error()
			finish(res)
			return
		}
	}
	var curMap []byte
	if curFile != "" {
		if f, err := os.OpenFile(curFile, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644); err == nil {
			f.Truncate(4096)
			curMap, _ = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			f.Close()
		}
	}
	var (
		next     atomic.Int64
		stop     int32
		mu       sync.Mutex
		fails    []*failure
		workers  []*worker
		wg       sync.WaitGroup
		finished int32
	)
	next.Store(int64(from))
	collect := func() {
		res.Events, res.Known = map[string]int64{}, map[string]int64{}
		sigs := map[uint64]struct{}{}
		for _, w := range workers {
			res.Evaluations += w.evals
			res.NonTrivial += w.nontriv
			for k, v := range w.events {
				res.Events[k] += v
			}
			for k, v := range w.known {
				res.Known[k] += v
			}
			for s := range w.sigs {
				sigs[s] = struct{}{}
			}
			res.Samples = append(res.Samples, w.samples...)
		}
		sort.Strings(res.Samples)
		if len(res.Samples) > 3 {
			res.Samples = res.Samples[:3]
		}
		res.Distinct = int64(len(sigs))
		res.WallS = time.Since(start).Seconds()
	}
	for i := 0; i < nw; i++ {
		w := newWorker()
		w.wantSample = i < 3
		workers = append(workers, w)
	}
	for i := range workers {
		w, slot := workers[i], i
		wg.Add(1)
		ready := make(chan struct{})
		go func() {
			defer wg.Done()
			runtime.LockOSThread()
			debug.SetPanicOnFault(true)
			w.tid = syscall.Gettid()
			close(ready)
			for atomic.LoadInt32(&stop) == 0 {
				n := int(next.Add(1) - 1)
				if n >= to {
					return
				}
				w.cur.Store(int64(n))
				if curMap != nil && slot < 500 {
					u := uint64(n) + 1
					for k := 0; k < 8; k++ {
						curMap[slot*8+k] = byte(u >> (8 * uint(k)))
					}
				}
				if f := c.RunOne(env, w, n, false); f != nil {
					mu.Lock()
					fails = append(fails, f)
					mu.Unlock()
					atomic.StoreInt32(&stop, 1)
				}
				w.cur.Store(-1)
				if curMap != nil && slot < 500 {
					for k := 0; k < 8; k++ {
						curMap[slot*8+k] = 0
					}
				}
			}
		}()
		<-ready
	}
	// The watchdog judges CPU time and memory, not the clock.
	go func() {
		type obs struct {
			n   int64
			cpu float64
		}
		seen := make([]obs, len(workers))
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		tick := func() {
			metrics.Read(sample)
			heap := sample[0].Value.Uint64()
			worst, worstCPU := -1, 0.0
			for i, w := range workers {
				n := w.cur.Load()
				if n < 0 {
					seen[i] = obs{-1, 0}
					continue
				}
				cpu := threadCPU(w.tid)
				if seen[i].n != n {
					seen[i] = obs{n, cpu}
					continue
				}
				if d := cpu - seen[i].cpu; d >= worstCPU {
					worst, worstCPU = i, d
				}
			}
			if worst < 0 {
				return
			}
			msg := ""
			if worstCPU > HangCPU {
				msg = fmt.Sprintf("operation does not terminate: one case used more than %.0f s of CPU time", HangCPU)
			} else if heap > HeapCap {
				msg = fmt.Sprintf("memory use is unbounded: heap of %d MiB", heap>>20)
			}
			if msg != "" {
				mu.Lock()
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				res.Verdict, res.Message, res.Case = "violation", msg+"\n"+zeropbFrames(string(buf)), int(seen[worst].n)
				res.WallS = time.Since(start).Seconds()
				finish(res)
				os.Exit(0)
			}
		}
		for missed := 0; atomic.LoadInt32(&finished) == 0; {
			time.Sleep(100 * time.Millisecond)
			if quiet.TryLock() {
				missed = 0
				tick()
				quiet.Unlock()
			} else if missed++; missed >= 300 {
				tick()
			}
		}
	}()
	wg.Wait()
	atomic.StoreInt32(&finished, 1)
	mu.Lock()
	defer mu.Unlock()
	collect()
	res.Verdict = "held"
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool {
			if (fails[i].kind == "violation") != (fails[j].kind == "violation") {
				return fails[i].kind == "violation"
			}
			return fails[i].n < fails[j].n
		})
		f := fails[0]
		res.Verdict, res.Message, res.Case = f.kind, f.msg, f.n
		done := make(chan struct{})
		go func() { // once more, with the steps written down
			defer close(done)
			runtime.LockOSThread()
			debug.SetPanicOnFault(true)
			if g := c.RunOne(env, newWorker(), f.n, true); g != nil {
				res.Trace = g.trace
			}
		}()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
		}
	} else if to > from {
		extra := false
		for _, v := range c.Variants {
			extra = extra || v.Name == env.Variant && v.Extra
		}
		for _, k := range c.Need {
			if extra && !strings.HasPrefix(k, env.Variant+":") {
				continue
			}
			// "variant:kind" asks for it in one variant only.
			if i := strings.IndexByte(k, ':'); i >= 0 {
				if k[:i] != env.Variant {
					continue
				}
				k = k[i+1:]
			}
			if res.Events[k] == 0 {
				res.Verdict, res.Message = "error", "inconclusive: no event of kind "+k+" was observed"
			}
		}
	}
	finish(res)
}

// zeropbFrames extracts the frames of the code under test from a dump of all
// stacks.
func zeropbFrames(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "github.com/danhhz/zeropb") {
			x := l
			if i+1 < len(lines) {
				x += " " + strings.TrimSpace(lines[i+1])
			}
			out = append(out, x)
		}
	}
	if len(out) > 10 {
		out = out[:10]
	}
	return strings.Join(out, "\n")
}

// WriteJSON writes v to a file.
func WriteJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	return os.WriteFile(path, append(b, '\n'), 0644)
}
