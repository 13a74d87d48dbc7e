// Package hlib is shared by the simulation worlds: scenario registry, worker,
// replay, minimiser, and the reference model of interactions.
package hlib

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"vsim"
)

// Scenario is one kind of simulated run.
type Scenario struct {
	Prop   string
	Name   string
	Weight int
	Fn     func()
}

var scenarios []Scenario

// Register adds a scenario to a property's check.
func Register(prop, name string, weight int, fn func()) {
	scenarios = append(scenarios, Scenario{prop, name, weight, fn})
}

var active string

// Active tells which property is being checked.
func Active() string { return active }

// Fail reports a violation of prop. Violations of other properties than the
// one being checked are only counted: their own check reports them.
func Fail(prop, class, format string, a ...any) {
	if prop != active {
		vsim.Count("other-property:" + prop)
		vsim.Logf("(other property %s) %s: "+format, append([]any{prop, class}, a...)...)
		return
	}
	vsim.Fail(class, format, a...)
}

// Bad ends a run in which the harness itself is broken.
func Bad(format string, a ...any) { vsim.Fail("HARNESS", format, a...) }

// Replay is the replay file.
type Replay struct {
	Property  string          `json:"property"`
	World     string          `json:"world"`
	Scenario  string          `json:"scenario"`
	Seed      uint64          `json:"seed"`
	SeedOnly  bool            `json:"seed_only,omitempty"` // run from the seed, not from choices
	Violation *vsim.Violation `json:"violation,omitempty"`
	Original  int             `json:"original_choices"`
	Choices   []uint32        `json:"choices"`
	Decisions []string        `json:"decisions,omitempty"`
	Trace     []string        `json:"trace,omitempty"`
	Hash      string          `json:"hash"`
}

// Stats is what a worker reports.
type Stats struct {
	Runs      int            `json:"runs"`
	Steps     int64          `json:"steps"`
	Switches  int64          `json:"switches"`
	Preempts  int64          `json:"preempts"`
	SimNs     int64          `json:"sim_ns"`
	Counts    map[string]int `json:"counts"`
	Scenarios map[string]int `json:"scenarios"`
	Hashes    []uint64       `json:"hashes"`
	Distinct  int            `json:"distinct"`
	Sites     []string       `json:"sites"`
	SitesN    int            `json:"sites_total"`
	Samples   []any          `json:"samples"`
	Sparse    int            `json:"determinism_checks"`
	Replay    *Replay        `json:"replay,omitempty"`
	Error     string         `json:"error,omitempty"`
	WallS     float64        `json:"wall_s"`
}

type progress struct{ f *os.File }

func (p *progress) put(seed uint64, scen string) {
	if p.f != nil {
		_, _ = p.f.WriteAt([]byte(fmt.Sprintf("%20d %-40s\n", seed, scen)), 0)
	}
}

func mixseed(a ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, x := range a {
		h ^= x + 0x9e3779b97f4a7c15 + h<<6 + h>>2
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 31
	}
	return h >> 1
}

func pick(prop string, seed uint64, only string) *Scenario {
	total := 0
	for i := range scenarios {
		if s := &scenarios[i]; s.Prop == prop && (only == "" || s.Name == only) {
			total += s.Weight
		}
	}
	if total == 0 {
		return nil
	}
	k := int(mixseed(seed, 77) % uint64(total))
	for i := range scenarios {
		s := &scenarios[i]
		if s.Prop != prop || (only != "" && s.Name != only) {
			continue
		}
		if k < s.Weight {
			return s
		}
		k -= s.Weight
	}
	return nil
}

func one(s *Scenario, cfg vsim.Config) *vsim.Result {
	return vsim.Run(cfg, s.Fn)
}

// Main is the entry of every world.
func Main(world string) {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "base seed")
	worker := flag.Int("worker", 0, "worker number")
	dur := flag.Float64("dur", 10, "seconds of exploration")
	maxRuns := flag.Int("runs", 0, "maximum number of runs")
	out := flag.String("out", "", "file for the report")
	prog := flag.String("progress", "", "progress file")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("scenario", "", "only this scenario")
	seedOnly := flag.Uint64("oneseed", 0, "run this single seed and report")
	minimise := flag.Float64("min", 20, "seconds for minimisation")
	list := flag.Bool("list", false, "list scenarios")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	active = *prop
	if *list {
		for _, s := range scenarios {
			fmt.Println(s.Prop, s.Name, s.Weight)
		}
		return
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2200 << 20)
	debug.SetMaxStack(256 << 20)
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30})
	if *replay != "" {
		os.Exit(doReplay(world, *replay, *verbose))
	}
	w := &workerState{world: world, prop: *prop, only: *only, minS: *minimise, st: Stats{Counts: map[string]int{}, Scenarios: map[string]int{}}, seen: map[uint64]bool{}}
	if *prog != "" {
		f, err := os.OpenFile(*prog, os.O_CREATE|os.O_RDWR, 0o644)
		if err == nil {
			w.pr.f = f
		}
	}
	// code under test prints; keep that away from the driver's output
	if !*verbose {
		quiet()
	}
	start := time.Now()
	if *seedOnly != 0 {
		w.run(*seedOnly)
	} else {
		for i := uint64(0); ; i++ {
			if time.Since(start).Seconds() > *dur || (*maxRuns > 0 && int(i) >= *maxRuns) {
				break
			}
			if !w.run(mixseed(*seed, uint64(*worker), i)) {
				break
			}
		}
	}
	w.st.WallS = time.Since(start).Seconds()
	w.finish()
	b, _ := json.Marshal(&w.st)
	if *out == "" {
		_, _ = realStdout.Write(append(b, '\n'))
	} else if err := os.WriteFile(*out, b, 0o644); err != nil {
		os.Exit(3)
	}
}

var realStdout = os.Stdout

func quiet() {
	fd, err := syscall.Dup(1)
	if err == nil {
		realStdout = os.NewFile(uintptr(fd), "stdout")
	}
	if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		_ = syscall.Dup2(int(n.Fd()), 1)
		os.Stdout = n
	}
}

type workerState struct {
	world, prop, only string
	minS              float64
	st                Stats
	seen              map[uint64]bool
	pr                progress
	sinceGC           int
}

// run returns false when the worker is done.
func (w *workerState) run(seed uint64) bool {
	sc := pick(w.prop, seed, w.only)
	if sc == nil {
		w.st.Error = "no scenario for " + w.prop
		return false
	}
	w.pr.put(seed, sc.Name)
	r := one(sc, vsim.Config{Seed: seed})
	w.account(sc, seed, r)
	if r.Violation != nil {
		w.violation(sc, seed, r)
		return false
	}
	// self-check: the same seed gives the same run, from the recorded choices too
	if w.st.Runs%97 == 1 {
		w.st.Sparse++
		r2 := one(sc, vsim.Config{Seed: seed, Replay: true, Script: r.Choices})
		if r2.Hash != r.Hash || r2.Steps != r.Steps || r2.Violation != nil {
			w.st.Error = fmt.Sprintf("scenario %s seed %d is not deterministic: %d/%x vs %d/%x", sc.Name, seed, r.Steps, r.Hash, r2.Steps, r2.Hash)
			return false
		}
	}
	w.sinceGC++
	if w.sinceGC >= 200 {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 256<<20 {
			runtime.GC()
		}
		w.sinceGC = 0
	}
	return true
}

func (w *workerState) account(sc *Scenario, seed uint64, r *vsim.Result) {
	st := &w.st
	st.Runs++
	st.Steps += int64(r.Steps)
	st.Switches += int64(r.Switches)
	st.Preempts += int64(r.Preempts)
	st.SimNs += r.SimNs
	st.Scenarios[sc.Name]++
	for k, v := range r.Counts {
		st.Counts[k] += v
	}
	if _, ok := w.seen[r.Hash]; !ok {
		w.seen[r.Hash] = r.Events > 0 && r.Switches > 2
	}
	if len(st.Samples) < 1 && r.Switches > 10 {
		t := one(sc, vsim.Config{Seed: seed, Replay: true, Script: r.Choices, Trace: true})
		tr := t.Trace
		if len(tr) > 40 {
			tr = tr[:40]
		}
		st.Samples = append(st.Samples, map[string]any{"scenario": sc.Name, "seed": seed, "steps": r.Steps, "switches": r.Switches, "choices": len(r.Choices), "simulated_s": float64(r.SimNs) / 1e9, "trace": tr})
	}
}

func (w *workerState) finish() {
	for h, nontrivial := range w.seen {
		if nontrivial {
			w.st.Hashes = append(w.st.Hashes, h)
		}
	}
	w.st.Distinct = len(w.seen)
	for i, n := range vsim.Sites {
		if i > 0 && vsim.Cov[i&0xffff] != 0 {
			w.st.Sites = append(w.st.Sites, n)
		}
	}
	w.st.SitesN = len(vsim.Sites) - 1
	if f := os.Getenv("VERIF_SITES"); f != "" { // for finding what is not reached
		var b strings.Builder
		for i, n := range vsim.Sites {
			if i > 0 {
				fmt.Fprintf(&b, "%v %s\n", vsim.Cov[i&0xffff] != 0, n)
			}
		}
		_ = os.WriteFile(fmt.Sprintf("%s.%s.%s.%d", f, w.world, w.prop, os.Getpid()), []byte(b.String()), 0o644)
	}
}

func (w *workerState) violation(sc *Scenario, seed uint64, r *vsim.Result) {
	rp := &Replay{Property: w.prop, World: w.world, Scenario: sc.Name, Seed: seed, Original: len(r.Choices)}
	if r.Violation.Class == "HARNESS" {
		w.st.Error = fmt.Sprintf("scenario %s seed %d: harness: %s", sc.Name, seed, r.Violation.Msg)
		return
	}
	best := minimise(sc, r, time.Duration(w.minS*float64(time.Second)))
	final := one(sc, vsim.Config{Seed: seed, Replay: true, Script: best, Trace: true})
	if final.Violation == nil { // cannot happen; keep the original
		best = r.Choices
		final = one(sc, vsim.Config{Seed: seed, Replay: true, Script: best, Trace: true})
	}
	rp.Choices = best
	rp.Violation = final.Violation
	rp.Hash = fmt.Sprintf("%x", final.Hash)
	rp.Trace = final.Trace
	for i, l := range final.Labels {
		if i < len(final.Choices) && final.Choices[i] != 0 && len(rp.Decisions) < 400 {
			rp.Decisions = append(rp.Decisions, fmt.Sprintf("%d:%s=%d", i, l, final.Choices[i]))
		}
	}
	w.st.Replay = rp
}

func same(a, b *vsim.Violation) bool { return a != nil && b != nil && a.Class == b.Class }

// minimise shrinks the list of choices while the same class of violation occurs.
func minimise(sc *Scenario, r *vsim.Result, limit time.Duration) []uint32 {
	best := append([]uint32(nil), r.Choices...)
	want := r.Violation
	deadline := time.Now().Add(limit)
	try := func(c []uint32) bool {
		if time.Now().After(deadline) {
			return false
		}
		x := one(sc, vsim.Config{Replay: true, Script: c})
		if same(x.Violation, want) {
			best = trim(c, len(x.Choices))
			return true
		}
		return false
	}
	best = trim(best, len(r.Choices))
	for round := 0; round < 6 && time.Now().Before(deadline); round++ {
		before := sum(best)
		// truncate
		for n := len(best) / 2; n >= 1; {
			if n < len(best) && try(append([]uint32(nil), best[:len(best)-n]...)) {
				if n > len(best)/2 {
					n = len(best) / 2
				}
				continue
			}
			n /= 2
		}
		// zero blocks, then delete blocks
		for _, mode := range []int{0, 1} {
			for size := max(len(best)/2, 1); size >= 1; size /= 2 {
				for i := 0; i < len(best) && time.Now().Before(deadline); {
					j := min(i+size, len(best))
					var c []uint32
					if mode == 0 {
						nz := false
						c = append([]uint32(nil), best...)
						for k := i; k < j; k++ {
							nz = nz || c[k] != 0
							c[k] = 0
						}
						if !nz {
							i = j
							continue
						}
					} else {
						c = append(append([]uint32(nil), best[:i]...), best[j:]...)
					}
					if try(c) && mode == 1 {
						continue
					}
					i += size
				}
				if size == 1 && len(best) > 3000 {
					break
				}
			}
		}
		// lower values
		for i := 0; i < len(best) && time.Now().Before(deadline); i++ {
			if best[i] == 0 {
				continue
			}
			for _, v := range []uint32{0, 1, best[i] / 2, best[i] - 1} {
				if i < len(best) && v < best[i] {
					c := append([]uint32(nil), best...)
					c[i] = v
					if try(c) {
						break
					}
				}
			}
		}
		if sum(best) == before {
			break
		}
	}
	return best
}

func sum(c []uint32) uint64 {
	t := uint64(len(c)) << 32
	for _, v := range c {
		if v != 0 {
			t += 1 << 20
		}
		t += uint64(v)
	}
	return t
}

func trim(c []uint32, used int) []uint32 {
	if used < len(c) {
		c = c[:used]
	}
	n := len(c)
	for n > 0 && c[n-1] == 0 {
		n--
	}
	return append([]uint32(nil), c[:n]...)
}

func doReplay(world, path string, verbose bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		return 2
	}
	active = rp.Property
	sc := pick(rp.Property, rp.Seed, rp.Scenario)
	if sc == nil {
		fmt.Println("no scenario", rp.Scenario)
		return 2
	}
	if !verbose {
		quiet()
	}
	cfg := vsim.Config{Seed: rp.Seed, Replay: true, Script: rp.Choices, Trace: true}
	if rp.SeedOnly {
		cfg = vsim.Config{Seed: rp.Seed, Trace: true}
	}
	r := one(sc, cfg)
	var o io.Writer = realStdout
	for _, t := range r.Trace {
		fmt.Fprintln(o, t)
	}
	h := fmt.Sprintf("%x", r.Hash)
	if r.Violation == nil {
		fmt.Fprintf(o, "REPLAY: no violation (steps=%d hash=%s)\n", r.Steps, h)
		return 0
	}
	fmt.Fprintf(o, "REPLAY: %s: %s\n  step=%d simulated=%.6fs goroutine=%s hash=%s exact=%v\n", r.Violation.Class, r.Violation.Msg, r.Violation.Step, float64(r.Violation.SimNs)/1e9, r.Violation.GSite, h, h == rp.Hash || rp.Hash == "")
	if r.Violation.Stack != "" {
		fmt.Fprintln(o, strings.TrimSpace(r.Violation.Stack))
	}
	return 1
}

// Keys of a map in order.
func Keys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
