package engine

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Whole is the context of a check that drives itself.
type Whole struct {
	Env   *Env
	Cases int
	Only  int // replay just this one (-1: all)
	Res   *Result
}

// Replay is the contents of a replay file.
type Replay struct {
	Property string
	Seed     int64
	Tier     string
	Variant  string
	Case     int
	Message  string
	Trace    []string
	Repro    string
}

// VerifDir is where the framework lives.
func VerifDir() string {
	if d := os.Getenv("ZP_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// Std is the default build: pointer checks on for the code under test.
var Std = Variant{Name: "checkptr", Flags: []string{"-gcflags=github.com/danhhz/zeropb/...=-d=checkptr"}}

// I386 is a 32-bit build, where lengths and tags overflow int much earlier.
var I386 = Variant{Name: "386", Env: []string{"GOARCH=386", "CGO_ENABLED=0"}, Optional: true}

// Race is a race detector build.
var Race = Variant{Name: "race", Env: []string{"CGO_ENABLED=1"}, Flags: []string{"-race"}, Race: true}

// Plain is an ordinary build.
var Plain = Variant{Name: "plain"}

// Wall is the watchdog of one child process; its firing is inconclusive.
var Wall = 840 * time.Second

// Build builds a variant of the harness.
func (v Variant) Build(dir, pkg, out string) (string, error) {
	args := append([]string{"build"}, v.Flags...)
	args = append(args, "-o", out, pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), v.Env...)
	b, err := cmd.CombinedOutput()
	return string(b), err
}

// Main is the program: parent, child, or replay.
func Main(checks []*Check) {
	var (
		prop    = flag.String("prop", "", "property id")
		replay  = flag.String("replay", "", "replay file")
		child   = flag.Bool("child", false, "internal: run cases")
		from    = flag.Int("from", 0, "internal")
		to      = flag.Int("to", 0, "internal")
		out     = flag.String("out", "", "internal")
		cur     = flag.String("cur", "", "internal")
		variant = flag.String("variant", "", "internal")
		seed    = flag.Int64("seed", envInt("VERIF_SEED", 1), "seed")
		tier    = flag.String("tier", envStr("VERIF_TIER", "quick"), "quick or thorough")
		cases   = flag.Int("cases", 0, "override the number of cases")
		percent = flag.Int("percent", 100, "scale the number of cases")
	)
	flag.Parse()
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		var r Replay
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*prop, *seed, *tier = r.Property, r.Seed, r.Tier
		c := find(checks, r.Property)
		os.Exit(c.parent(*seed, *tier, 0, &r))
	}
	c := find(checks, *prop)
	if *child {
		env := &Env{Seed: *seed, Tier: *tier, Scratch: os.Getenv("ZP_SCRATCH"), Variant: *variant}
		if *variant == "race" {
			HangCPU = 120
		}
		c.RunCases(env, *from, *to, *cur, func(r *Result) {
			if err := WriteJSON(*out, r); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		})
		os.Exit(0)
	}
	if n := c.Quick; *percent != 100 && *cases == 0 {
		if *tier == "thorough" {
			n = c.Thorough
		}
		*cases = n**percent/100 + 1
	}
	os.Exit(c.parent(*seed, *tier, *cases, nil))
}

func find(checks []*Check, id string) *Check {
	for _, c := range checks {
		if c.ID == id {
			return c
		}
	}
	fmt.Fprintf(os.Stderr, "no check for property %q\n", id)
	os.Exit(2)
	return nil
}

func envInt(k string, d int64) int64 {
	if n, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return n
	}
	return d
}

func envStr(k, d string) string {
	if s := os.Getenv(k); s != "" {
		return s
	}
	return d
}

// spawn runs a child on cases [from, to) and returns its result.
func (c *Check) spawn(bin string, v Variant, seed int64, tier, scratch string, from, to int) (*Result, []int64, string) {
	out := filepath.Join(scratch, fmt.Sprintf("res-%s-%d.json", v.Name, from))
	cur := filepath.Join(scratch, fmt.Sprintf("cur-%s-%d", v.Name, from))
	os.Remove(out)
	racelog := filepath.Join(scratch, fmt.Sprintf("racelog-%s-%d", v.Name, from))
	cmd := exec.Command(bin, "-child", "-prop", c.ID, "-variant", v.Name, "-seed", fmt.Sprint(seed), "-tier", tier,
		"-from", fmt.Sprint(from), "-to", fmt.Sprint(to), "-out", out, "-cur", cur)
	var stderr bytes.Buffer
	cmd.Stdout = os.Stderr
	cmd.Stderr = &limited{w: &stderr, n: 4 << 20}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+racelog, "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, v.Run...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return nil, nil, "cannot start: " + err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	timedOut := false
	select {
	case err = <-done:
	case <-time.After(Wall):
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
	}
	if b, rerr := os.ReadFile(out); rerr == nil && !timedOut {
		var r Result
		if json.Unmarshal(b, &r) == nil {
			if v.Race {
				c.readRaces(racelog, &r)
			}
			return &r, nil, ""
		}
	}
	if timedOut {
		return nil, nil, "timeout"
	}
	// It died. Which cases was it running?
	var running []int64
	if b, rerr := os.ReadFile(cur); rerr == nil {
		for i := 0; i+8 <= len(b); i += 8 {
			var u uint64
			for k := 7; k >= 0; k-- {
				u = u<<8 | uint64(b[i+k])
			}
			if u > 0 {
				running = append(running, int64(u-1))
			}
		}
	}
	return nil, running, fmt.Sprintf("died (%v):\n%s", err, stderr.String())
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.w.Write(q)
		l.n -= len(q)
	}
	return len(p), nil
}

// readRaces counts race reports; one that involves the code under test is a
// violation.
func (c *Check) readRaces(prefix string, r *Result) {
	files, _ := filepath.Glob(prefix + ".*")
	total, ours := 0, 0
	first := ""
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			total++
			if strings.Contains(blk, "github.com/danhhz/zeropb") {
				ours++
				if first == "" {
					first = blk
				}
			} else if first == "" && ours == 0 {
				first = blk
			}
		}
	}
	if r.Events == nil {
		r.Events = map[string]int64{}
	}
	r.Events["race.reports"] = int64(total)
	if total == 0 || r.Verdict == "violation" {
		return
	}
	if ours > 0 {
		r.Verdict = "violation"
		r.Message = fmt.Sprintf("%d data race report(s) involving the code under test; the first:\n%s", ours, strings.TrimSpace(first))
	} else {
		r.Verdict = "error"
		r.Message = "data race in the harness itself:\n" + first
	}
}

func (c *Check) parent(seed int64, tier string, cases int, rp *Replay) int {
	start := time.Now()
	scratch := os.Getenv("ZP_SCRATCH")
	if scratch == "" {
		d, err := os.MkdirTemp("", "zpverif")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		defer os.RemoveAll(d)
		scratch = d
		os.Setenv("ZP_SCRATCH", d)
	}
	n := c.Quick
	if tier == "thorough" {
		n = c.Thorough
	}
	if cases > 0 {
		n = cases
	}
	total := &Result{Case: -1, Verdict: "held", Events: map[string]int64{}, Known: map[string]int64{}}
	var notes []string
	if c.Whole != nil {
		w := &Whole{Env: &Env{Seed: seed, Tier: tier, Scratch: scratch}, Cases: n, Only: -1, Res: total}
		if rp != nil {
			w.Only = rp.Case
		}
		c.Whole(w)
	} else {
		self, _ := os.Executable()
		vs := c.Variants
		if len(vs) == 0 {
			vs = []Variant{Std}
		}
		from := 0
		for i, v := range vs {
			share := v.Share
			if share == 0 {
				share = 1
			}
			cnt := int(float64(n) * share)
			lo, hi := from, from+cnt
			from = hi
			if rp != nil {
				if rp.Variant != v.Name {
					continue
				}
				lo, hi = rp.Case, rp.Case+1
				if rp.Case < 0 {
					lo, hi = from-cnt, from
				}
			}
			bin := self
			if v.Name != Std.Name {
				bin = filepath.Join(scratch, "zp-"+v.Name)
				if o, err := v.Build(filepath.Join(VerifDir(), "harness"), "./cmd/zpcheck", bin); err != nil {
					if v.Optional {
						notes = append(notes, "variant "+v.Name+" could not be built here")
						continue
					}
					total.Verdict, total.Message = "error", "building variant "+v.Name+": "+o
					break
				}
				if v.Optional {
					if err := exec.Command(bin, "-h").Run(); err != nil {
						if _, ok := err.(*exec.ExitError); !ok {
							notes = append(notes, "variant "+v.Name+" cannot be executed here")
							continue
						}
					}
				}
			}
			r, running, problem := c.spawn(bin, v, seed, tier, scratch, lo, hi)
			if r == nil {
				r = c.explainDeath(bin, v, seed, tier, scratch, running, problem)
			}
			total.Events["variant."+v.Name+".cases"] += r.Evaluations
			total.Add(r, v.Name)
			if total.Verdict != "held" {
				break
			}
			_ = i
		}
	}
	total.WallS = time.Since(start).Seconds()
	if total.Evaluations == 0 && total.Verdict == "held" {
		total.Verdict, total.Message = "error", "inconclusive: nothing was executed"
	}
	if total.NonTrivial == 0 && total.Verdict == "held" && rp == nil {
		total.Verdict, total.Message = "error", "inconclusive: no non-trivial case"
	}
	// Known findings.
	listed := knownFindings(c.ID)
	var keys []string
	for k := range total.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		text, ok := listed[k]
		if !ok && total.Verdict != "violation" {
			total.Verdict, total.Case = "violation", -1
			total.Message = "unlisted finding: " + k
			continue
		}
		if ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (observed %d times)\n", c.ID, k, text, total.Known[k])
		}
	}
	if rp == nil {
		c.evidence(seed, tier, total, notes)
	}
	fmt.Printf("%s %s seed=%d: %s; %d cases, %d non-trivial, %d distinct, %.1f s\n", c.ID, tier, seed, total.Verdict, total.Evaluations, total.NonTrivial, total.Distinct, total.WallS)
	switch total.Verdict {
	case "held":
		return 0
	case "violation":
		path := filepath.Join(VerifDir(), "replays", fmt.Sprintf("%s-%d-%d.json", c.ID, seed, total.Case))
		r := Replay{Property: c.ID, Seed: seed, Tier: tier, Variant: total.Variant, Case: total.Case, Message: total.Message, Trace: total.Trace,
			Repro: "bash run.sh " + c.ID + " replay " + path}
		if rp == nil {
			WriteJSON(path, r)
		}
		msg := total.Message
		if len(msg) > 1500 {
			msg = msg[:1500] + "..."
		}
		fmt.Printf("variant %s case %d: %s\n", total.Variant, total.Case, msg)
		for i, s := range total.Trace {
			if i >= 40 {
				fmt.Printf("  ... (%d more steps in the replay file)\n", len(total.Trace)-i)
				break
			}
			fmt.Println("  " + s)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		return 1
	}
	fmt.Fprintf(os.Stderr, "%s: %s: %s\n", c.ID, total.Verdict, total.Message)
	return 2
}

// Add merges another process's observations.
func (total *Result) Add(r *Result, variant string) {
	total.Evaluations += r.Evaluations
	total.NonTrivial += r.NonTrivial
	total.Distinct += r.Distinct
	for k, x := range r.Events {
		total.Events[k] += x
	}
	for k, x := range r.Known {
		total.Known[k] += x
	}
	if len(total.Samples) < 3 {
		total.Samples = append(total.Samples, r.Samples...)
	}
	if rank(r.Verdict) > rank(total.Verdict) {
		total.Verdict, total.Message, total.Case, total.Trace, total.Variant = r.Verdict, r.Message, r.Case, r.Trace, variant
	}
}

// Exec runs cases [from, to) of the check in the given program, which was built
// around Main.
func (c *Check) Exec(bin string, v Variant, env *Env, from, to int) *Result {
	r, running, problem := c.spawn(bin, v, env.Seed, env.Tier, env.Scratch, from, to)
	if r == nil {
		r = c.explainDeath(bin, v, env.Seed, env.Tier, env.Scratch, running, problem)
	}
	return r
}

func rank(v string) int {
	switch v {
	case "violation":
		return 2
	case "error":
		return 1
	}
	return 0
}

// explainDeath finds out whether a crashed child crashed because of the code
// under test.
func (c *Check) explainDeath(bin string, v Variant, seed int64, tier, scratch string, running []int64, problem string) *Result {
	if problem == "timeout" {
		return &Result{Case: -1, Verdict: "error", Message: "inconclusive: wall-clock watchdog fired"}
	}
	for _, n := range running {
		r, _, p := c.spawn(bin, v, seed, tier, scratch, int(n), int(n)+1)
		if r != nil && r.Verdict == "violation" {
			return r
		}
		if r == nil && p != "timeout" && (blamesZeropb(p) || c.MemoryFatal && corrupted(p)) {
			return &Result{Case: int(n), Verdict: "violation", Message: "the process crashed: " + tail(p), Evaluations: 1}
		}
	}
	if blamesZeropb(problem) || c.MemoryFatal && corrupted(problem) {
		return &Result{Case: -1, Verdict: "violation", Message: "the process crashed: " + tail(problem)}
	}
	return &Result{Case: -1, Verdict: "error", Message: "inconclusive: child " + tail(problem)}
}

// corrupted is whether the runtime ended the process because of pointers that
// can't be.
func corrupted(s string) bool {
	for _, x := range []string{"found bad pointer in Go heap", "found pointer to free object", "marking free object", "unexpected fault address",
		"checkptr:", "sweep increased allocation count", "unexpected signal during runtime execution", "pointer to unallocated span", "invalid pointer found on stack"} {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

// blamesZeropb is whether the crashing goroutine was executing the code under
// test.
func blamesZeropb(s string) bool {
	if !strings.Contains(s, "fatal error:") && !strings.Contains(s, "panic:") && !strings.Contains(s, "SIGSEGV") {
		return false
	}
	blocks := strings.Split(s, "\n\n")
	for _, b := range blocks {
		if strings.HasPrefix(b, "goroutine ") && (strings.Contains(b, "[running") || strings.Contains(strings.SplitN(b, "\n", 2)[0], "running")) {
			return strings.Contains(b, "github.com/danhhz/zeropb")
		}
	}
	return false
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

// knownFindings reads the listed findings of a property: lines
// "finding: property=<id> key=<key> <text>".
func knownFindings(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(VerifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			out[strings.TrimPrefix(f[2], "key=")] = f[3]
		}
	}
	return out
}

func (c *Check) evidence(seed int64, tier string, r *Result, notes []string) {
	ev := map[string]interface{}{}
	for k, v := range r.Events {
		ev[k] = v
	}
	samples := make([]interface{}, 0)
	for _, s := range r.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, "none: the run ended before a case completed")
	}
	viol := 0
	if r.Verdict == "violation" {
		viol = 1
	}
	cov := map[string]interface{}{
		"evaluations":         r.Evaluations,
		"distinct_nontrivial": r.Distinct,
		"rule":                c.Rule,
		"samples":             samples,
		"events_observed":     ev,
		"verdict":             r.Verdict,
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if len(r.Known) > 0 {
		cov["known_findings_observed"] = r.Known
	}
	as := c.Assumptions
	if as == nil {
		as = []string{}
	}
	WriteJSON(filepath.Join(VerifDir(), "evidence", c.ID+".json"), map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": as, "wall_s": float64(int(r.WallS*100)) / 100, "violations": viol,
	})
}
