// simgen builds the simulation worlds from the repository's working tree and
// drives the checks.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: simgen gen|check|replay|selftest|setup ...")
	}
	switch os.Args[1] {
	case "gen": // gen OUT WORLD UNIVERSES (development)
		n, _ := strconv.Atoi(os.Args[4])
		bin, sites, err := gen(&genOpts{repo: repoDir(), verif: verifDir(), out: os.Args[2], world: os.Args[3], universes: n})
		fmt.Println(bin, sites, err)
		if err != nil {
			os.Exit(2)
		}
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "selftest":
		os.Exit(selftest())
	case "setup":
		fmt.Println("ok")
	default:
		fatal("unknown command " + os.Args[1])
	}
}

func fatal(a ...any) {
	fmt.Println(append([]any{"ERROR:"}, a...)...)
	os.Exit(2)
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type worldRun struct {
	world   string
	workers int
}

// worlds that take part in a property's check, with their share of the workers.
func plan(prop string) []worldRun {
	m, ok := props[prop]
	if !ok {
		return nil
	}
	return m
}

type scratch struct{ dir string }

func newScratch() *scratch {
	d, err := os.MkdirTemp("", "vsim-")
	if err != nil {
		fatal(err)
	}
	return &scratch{d}
}

func (s *scratch) remove() {
	if strings.Contains(s.dir, "vsim-") {
		_ = os.RemoveAll(s.dir)
	}
}

func (s *scratch) build(world string) (string, int, error) {
	return gen(&genOpts{repo: repoDir(), verif: verifDir(), out: filepath.Join(s.dir, world), world: world, universes: universes[world]})
}

type workerRun struct {
	n        int
	world    string
	bin      string
	out      string
	prog     string
	errf     string
	cmd      *exec.Cmd
	stats    map[string]json.RawMessage
	st       stats
	err      error
	hung     bool
	finished bool
}

type stats struct {
	Runs      int             `json:"runs"`
	Steps     int64           `json:"steps"`
	Switches  int64           `json:"switches"`
	Preempts  int64           `json:"preempts"`
	SimNs     int64           `json:"sim_ns"`
	Counts    map[string]int  `json:"counts"`
	Scenarios map[string]int  `json:"scenarios"`
	Hashes    []uint64        `json:"hashes"`
	Distinct  int             `json:"distinct"`
	Sites     []string        `json:"sites"`
	SitesN    int             `json:"sites_total"`
	Samples   []any           `json:"samples"`
	Sparse    int             `json:"determinism_checks"`
	Replay    json.RawMessage `json:"replay"`
	Error     string          `json:"error"`
	WallS     float64         `json:"wall_s"`
}

type replayFile struct {
	Property  string `json:"property"`
	World     string `json:"world"`
	Scenario  string `json:"scenario"`
	Seed      uint64 `json:"seed"`
	SeedOnly  bool   `json:"seed_only,omitempty"`
	Violation *struct {
		Class string `json:"class"`
		Msg   string `json:"msg"`
	} `json:"violation,omitempty"`
	Choices []uint32 `json:"choices"`
	Hash    string   `json:"hash"`
}

func (w *workerRun) lastProgress() (seed uint64, scen string, at time.Time) {
	b, err := os.ReadFile(w.prog)
	if err == nil {
		fmt.Sscan(string(b), &seed, &scen)
	}
	if fi, err := os.Stat(w.prog); err == nil {
		at = fi.ModTime()
	}
	return
}

func (w *workerRun) start(prop string, seed uint64, dur, min float64) error {
	args := []string{"-prop", prop, "-seed", fmt.Sprint(seed), "-worker", fmt.Sprint(w.n), "-dur", fmt.Sprint(dur), "-min", fmt.Sprint(min), "-out", w.out, "-progress", w.prog}
	w.cmd = exec.Command(w.bin, args...)
	w.cmd.Dir = filepath.Dir(w.out)
	ef, err := os.Create(w.errf)
	if err != nil {
		return err
	}
	w.cmd.Stderr = ef
	w.cmd.Stdout = ef
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all")
	defer ef.Close()
	return w.cmd.Start()
}

// wait for the worker; kill it when a single run takes longer than stuck.
func (w *workerRun) wait(stuck time.Duration, hard time.Time) {
	done := make(chan error, 1)
	go func() { done <- w.cmd.Wait() }()
	t := time.NewTicker(time.Second)
	defer t.Stop()
	begin := time.Now()
	for {
		select {
		case w.err = <-done:
			w.finished = true
			return
		case <-t.C:
			_, _, at := w.lastProgress()
			if at.IsZero() {
				at = begin
			}
			if time.Since(at) > stuck || time.Now().After(hard) {
				w.hung = true
				_ = syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
				w.err = <-done
				return
			}
		}
	}
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		b = append(append([]byte(nil), b[:n/2]...), append([]byte("\n ... \n"), b[len(b)-n/2:]...)...)
	}
	return string(b)
}

func check(prop string) int {
	begin := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	dur, min := 30.0, 25.0
	if tier == "thorough" {
		dur, min = 720, 60
	}
	if d, err := strconv.ParseFloat(os.Getenv("VERIF_DUR"), 64); err == nil {
		dur = d
	}
	ws := plan(prop)
	if ws == nil {
		fatal("no check for " + prop)
	}
	ev := filepath.Join(verifDir(), "evidence", prop+".json")
	_ = os.MkdirAll(filepath.Dir(ev), 0o755)
	_ = os.Remove(ev)
	sc := newScratch()
	defer sc.remove()
	bins := map[string]string{}
	for _, w := range ws {
		b, _, err := sc.build(w.world)
		if err != nil {
			fmt.Println("ERROR: building world", w.world+":", err)
			return 2
		}
		bins[w.world] = b
	}
	buildS := time.Since(begin).Seconds()
	fmt.Printf("%s: built %d world(s) in %.1f s\n", prop, len(bins), buildS)
	var runs []*workerRun
	n := 0
	for _, w := range ws {
		for k := 0; k < w.workers; k++ {
			d := filepath.Join(sc.dir, fmt.Sprintf("w%d", n))
			_ = os.MkdirAll(d, 0o755)
			runs = append(runs, &workerRun{n: n, world: w.world, bin: bins[w.world], out: filepath.Join(d, "out.json"), prog: filepath.Join(d, "progress"), errf: filepath.Join(d, "stderr")})
			n++
		}
	}
	var wg sync.WaitGroup
	hard := time.Now().Add(time.Duration((dur+min)*float64(time.Second)) + 120*time.Second)
	for _, w := range runs {
		if err := w.start(prop, seed, dur, min); err != nil {
			fmt.Println("ERROR: starting a worker:", err)
			return 2
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.wait(time.Duration(min*float64(time.Second))+45*time.Second, hard)
		}()
	}
	wg.Wait()
	total := stats{Counts: map[string]int{}, Scenarios: map[string]int{}}
	hashes := map[uint64]bool{}
	sites := map[string]map[string]bool{}
	sitesN := map[string]int{}
	var violations [][]byte
	for _, w := range runs {
		b, rerr := os.ReadFile(w.out)
		if w.err == nil && rerr == nil && json.Unmarshal(b, &w.st) == nil {
			if w.st.Error != "" {
				fmt.Println("ERROR:", w.st.Error)
				return 2
			}
		} else {
			// the process died or hung in a run: that run is the violation if it does so again
			seed, scen, _ := w.lastProgress()
			what := "crash"
			if w.hung {
				what = "hang"
			}
			fmt.Printf("worker %d (%s): %s in run seed=%d scenario=%s: %v\n%s\n", w.n, w.world, what, seed, scen, w.err, tail(w.errf, 4000))
			if seed == 0 {
				fmt.Println("ERROR: worker failed before its first run")
				return 2
			}
			rf := map[string]any{"property": prop, "world": w.world, "scenario": scen, "seed": seed, "seed_only": true, "choices": []int{}, "hash": "",
				"violation": map[string]any{"class": what, "msg": "the process under simulation " + map[string]string{"crash": "crashed", "hang": "hung"}[what] + ": " + tail(w.errf, 1500)}}
			rb, _ := json.MarshalIndent(rf, "", " ")
			violations = append(violations, rb)
			continue
		}
		st := &w.st
		total.Runs += st.Runs
		total.Steps += st.Steps
		total.Switches += st.Switches
		total.Preempts += st.Preempts
		total.SimNs += st.SimNs
		total.Sparse += st.Sparse
		total.Distinct += st.Distinct
		for k, v := range st.Counts {
			total.Counts[k] += v
		}
		for k, v := range st.Scenarios {
			total.Scenarios[w.world+"/"+k] += v
		}
		for _, h := range st.Hashes {
			hashes[h] = true
		}
		if sites[w.world] == nil {
			sites[w.world] = map[string]bool{}
		}
		for _, s := range st.Sites {
			sites[w.world][s] = true
		}
		sitesN[w.world] = st.SitesN
		if len(total.Samples) < 3 {
			total.Samples = append(total.Samples, st.Samples...)
		}
		if len(st.Replay) > 0 && string(st.Replay) != "null" {
			violations = append(violations, st.Replay)
		}
	}
	// report the shortest violation that a fresh process reproduces
	sort.SliceStable(violations, func(i, j int) bool { return len(violations[i]) < len(violations[j]) })
	rdir := filepath.Join(verifDir(), "replays")
	_ = os.MkdirAll(rdir, 0o755)
	reported := 0
	code := 0
	for _, v := range violations {
		var rf replayFile
		if err := json.Unmarshal(v, &rf); err != nil {
			fmt.Println("ERROR: replay file:", err)
			return 2
		}
		if reported > 0 {
			continue
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", prop, rf.World, rf.Seed))
		if err := os.WriteFile(path, v, 0o644); err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
		rc, out := runReplay(bins[rf.World], path, 150*time.Second)
		if rc == 0 || rc == 2 || (rc == 1 && !strings.Contains(out, "exact=true")) {
			fmt.Printf("not reproduced exactly (%d): %s\n%s\n", rc, path, lastLines(out, 12))
			continue
		}
		reported++
		if rf.Violation != nil {
			fmt.Printf("%s: %s\n  (scenario %s, seed %d, %d choices; replay: ./check replay %s)\n", rf.Violation.Class, rf.Violation.Msg, rf.Scenario, rf.Seed, len(rf.Choices), path)
		}
		fmt.Print(lastLines(out, 25))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
	}
	if len(violations) > 0 && reported == 0 {
		fmt.Println("ERROR: no violation reproduces in a fresh process: the machinery is broken")
		code = 2
	}
	if code == 0 && total.Runs == 0 {
		fmt.Println("ERROR: nothing was run")
		code = 2
	}
	if err := evidence(ev, prop, tier, int(seed), ws, &total, len(hashes), sites, sitesN, dur, buildS, time.Since(begin).Seconds(), reported); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	if code == 0 {
		known(prop)
		fmt.Printf("%s: held on %d simulated runs (%d distinct non-trivial), %.0f simulated hours, %d violation(s)\n", prop, total.Runs, len(hashes), float64(total.SimNs)/3.6e12, 0)
	}
	return code
}

// known prints the findings that are recorded and not repaired.
func known(prop string) {
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		l := strings.TrimSpace(s.Text())
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			fmt.Println("KNOWN-FINDING: property=" + strings.TrimPrefix(l, "finding: property="))
		}
	}
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimRight(s, "\n"), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n") + "\n"
}

// runReplay returns 1 for a violation (or a crash), 0 for none.
func runReplay(bin, path string, limit time.Duration) (int, string) {
	var rf replayFile
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		return 2, err.Error()
	}
	c := exec.Command(bin, "-replay", path)
	c.Dir = filepath.Dir(bin)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	c.Env = append(os.Environ(), "GOMAXPROCS=2")
	var sb strings.Builder
	c.Stdout, c.Stderr = &sb, &sb
	if err := c.Start(); err != nil {
		return 2, err.Error()
	}
	timedOut := false
	if rf.SeedOnly && rf.Violation != nil && rf.Violation.Class == "hang" {
		limit = 60 * time.Second
	}
	t := time.AfterFunc(limit, func() {
		timedOut = true
		_ = syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	})
	err = c.Wait()
	t.Stop()
	out := sb.String()
	switch {
	case timedOut:
		return 1, out + "REPLAY: hang exact=true\n"
	case err == nil:
		return 0, out
	}
	if strings.Contains(out, "REPLAY: ") {
		return 1, out
	}
	if strings.Contains(out, "no scenario") {
		return 2, out
	}
	return 1, tailStr(out, 3000) + "\nREPLAY: crash exact=true\n"
}

func tailStr(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal(err)
	}
	sc := newScratch()
	defer sc.remove()
	bin, _, err := sc.build(rf.World)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	abs, _ := filepath.Abs(path)
	rc, out := runReplay(bin, abs, 300*time.Second)
	fmt.Print(out)
	if rc == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, abs)
	}
	return rc
}

func evidence(path, prop, tier string, seed int, ws []worldRun, t *stats, distinct int, sites map[string]map[string]bool, sitesN map[string]int, dur, buildS, wall float64, viol int) error {
	faults, work, others := map[string]int{}, map[string]int{}, map[string]int{}
	for k, v := range t.Counts {
		switch {
		case strings.HasPrefix(k, "other-property:"):
			others[strings.TrimPrefix(k, "other-property:")] = v
		case strings.HasPrefix(k, "workload:"):
			work[strings.TrimPrefix(k, "workload:")] = v
		default:
			faults[k] = v
		}
	}
	siteCov := map[string]any{}
	comp := map[string]any{}
	for _, w := range ws {
		siteCov[w.world] = map[string]int{"instrumented_sites": sitesN[w.world], "sites_executed": len(sites[w.world])}
		comp[w.world] = components[w.world]
	}
	workers := 0
	for _, w := range ws {
		workers += w.workers
	}
	if t.Samples == nil {
		t.Samples = []any{}
	}
	hours := dur / 3600
	e := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": viol,
		"coverage": map[string]any{
			"evaluations":         t.Runs,
			"distinct_nontrivial": distinct,
			"rule":                "one case = one simulated run of the whole system under one seed, which draws the workload, every scheduling decision, delay and fault; two runs are distinct when the hash over all scheduling switches, decisions and recorded events differs; a run is non-trivial when harness-visible events happened and goroutines were switched more than twice",
			"samples":             t.Samples,
			"runs_per_hour":       int(float64(t.Runs) / hours),
			"workers":             workers,
			"scenarios":           t.Scenarios,
			"simulated_s":         float64(t.SimNs) / 1e9,
			"scheduling_steps":    t.Steps,
			"context_switches":    t.Switches,
			"preemptions":         t.Preempts,
			"distinct_runs_by_hash_of_schedule_and_events": t.Distinct,
			"faults_and_network_events_injected":           faults,
			"workload_events":                              work,
			"determinism_self_checks":                      t.Sparse,
			"code_sites":                                   siteCov,
			"components":                                   comp,
			"failures_seen_of_other_properties":            others,
			"build_s":                                      buildS,
			"cpus":                                         runtime.NumCPU(),
		},
		"assumptions": []string{
			"scheduling points are the synchronisation operations, shared memory accesses instrumented by simgen, timers and I/O of the code under test; the Go memory model's weaker reorderings of racy plain accesses are not simulated",
			"exploration samples schedules and faults; it does not enumerate them",
		},
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// selftest builds every world and runs a few seeds of every scenario twice.
func selftest() int {
	sc := newScratch()
	defer sc.remove()
	code := 0
	worlds := map[string]bool{}
	var ids []string
	for p := range props {
		ids = append(ids, p)
	}
	sort.Strings(ids)
	bins := map[string]string{}
	for _, p := range ids {
		for _, w := range props[p] {
			if !worlds[w.world] {
				worlds[w.world] = true
				b, n, err := sc.build(w.world)
				if err != nil {
					fmt.Println("ERROR:", w.world, err)
					return 2
				}
				fmt.Println("world", w.world, "sites", n)
				bins[w.world] = b
			}
			var hash [2]string
			for k := range hash {
				out := filepath.Join(sc.dir, fmt.Sprintf("st%d.json", k))
				c := exec.Command(bins[w.world], "-prop", p, "-seed", "7", "-runs", "60", "-dur", "60", "-out", out)
				c.Dir = sc.dir
				if b, err := c.CombinedOutput(); err != nil {
					fmt.Println("ERROR:", p, w.world, err, string(b))
					code = 2
				}
				var st stats
				b, _ := os.ReadFile(out)
				_ = json.Unmarshal(b, &st)
				sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
				hash[k] = fmt.Sprint(st.Runs, st.Steps, st.Hashes, st.Error, string(st.Replay))
			}
			if hash[0] != hash[1] {
				fmt.Println("ERROR:", p, w.world, "differs between two processes")
				code = 2
			} else {
				fmt.Println("ok", p, w.world)
			}
		}
	}
	return code
}
