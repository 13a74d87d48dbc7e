// Package vsim is a deterministic simulator: a single-threaded cooperative
// scheduler for goroutines, channels, locks, timers and I/O. Every decision is
// drawn from one stream of choices; the recorded stream is the replay file.
package vsim

import (
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// ---------------------------------------------------------------- choices

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) intn(n int) int { return int(r.next() % uint64(n)) }
func (r *rng) float() float64 { return float64(r.next()>>11) / (1 << 53) }

// ---------------------------------------------------------------- goroutines

type gstate uint8

const (
	gRunnable gstate = iota
	gRunning
	gParked
	gDone
)

// G is a simulated goroutine.
type G struct {
	id       int
	site     uint32
	harness  bool
	fn       func()
	next     func() (struct{}, bool)
	stop     func()
	yield    func(struct{}) bool
	state    gstate
	started  bool
	prio     int
	why      string
	lastSite uint32
	poll     func() bool // foreign wait
}

type timer struct {
	at      int64
	seq     uint64
	fn      func()
	dead    bool
	ambient bool
}

// Violation is what a run found.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Stack string `json:"stack,omitempty"`
	Step  int    `json:"step"`
	SimNs int64  `json:"sim_ns"`
	GSite string `json:"goroutine"`
	Prop  string `json:"prop,omitempty"`
}

// Result of a run.
type Result struct {
	Violation *Violation
	Steps     int
	Switches  int
	Preempts  int
	SimNs     int64
	Hash      uint64
	Events    uint64
	Counts    map[string]int
	Choices   []uint32
	Labels    []string
	Trace     []string
	Gs        int
}

type scheduler struct {
	depth    int // of calls that do not yield
	entered  int // since the last event
	active   bool
	killing  bool
	r        rng
	replay   bool
	script   []uint32
	pos      int
	rec      []uint32
	labels   []string
	gs       []*G
	runnable []*G
	foreign  []*G
	idle     []*G
	timers   []*timer // heap
	tseq     uint64
	now      int64
	steps    int
	budget   int
	switches int
	preempts int
	stepCap  int
	cap0     int
	fairAt   int
	strat    strategy
	viol     *Violation
	hash     uint64
	events   uint64
	counts   map[string]int
	chans    map[uintptr]*hchan
	keyIDs   map[uintptr]int
	keyKeep  []any
	trace    []string
	tracing  bool
	wallOff  int64
	stopped  bool
	env      map[string]string
	files    map[string][]byte
	fileErr  func(string) error
	net      *network
	pools    int
	maps     map[uintptr]*mapState
}

type strategy struct {
	kind     int // 0 run-to-block, 1 random preemption, 2 priorities (PCT)
	mean     int // mean gap for random preemption
	pickRand bool
	drops    []int // PCT priority change points (step numbers)
	low      int
	jump     int // 1/jump probability of firing the next timer early
}

var (
	s   scheduler
	cur *G
	// Cov marks reached sites.
	Cov [1 << 16]uint8
	// Sites names the instrumented sites.
	Sites     []string
	permChans = map[uintptr]*hchan{}
	resets    []func()
)

// RegisterReset adds a function that restores a package's variables.
func RegisterReset(f func()) { resets = append(resets, f) }

// Globals are pointers to the variables of the instrumented packages.
var Globals []any

// RegisterGlobals adds variables of a package.
func RegisterGlobals(p ...any) { Globals = append(Globals, p...) }

// RegisterSites installs the site table.
func RegisterSites(names []string) { Sites = names }

func siteName(id uint32) string {
	if int(id) < len(Sites) {
		return Sites[id]
	}
	return fmt.Sprintf("site%d", id)
}

// Config of one run.
type Config struct {
	Seed    uint64
	Script  []uint32
	Replay  bool
	Trace   bool
	StepCap int
	FairAt  int
	Env     map[string]string
}

func (c *Config) def() {
	if c.StepCap == 0 {
		c.StepCap = 1500000
	}
	if c.FairAt == 0 {
		c.FairAt = 400000
	}
}

// Run executes one simulation.
func Run(cfg Config, main func()) *Result {
	cfg.def()
	s = scheduler{
		active: true, r: rng{cfg.Seed*0x9e3779b97f4a7c15 + 0x1234567}, replay: cfg.Replay, script: cfg.Script,
		stepCap: cfg.StepCap, cap0: cfg.StepCap, fairAt: cfg.FairAt, hash: 14695981039346656037,
		counts: map[string]int{}, chans: map[uintptr]*hchan{}, keyIDs: map[uintptr]int{},
		tracing: cfg.Trace, env: cfg.Env, files: map[string][]byte{},
	}
	if s.env == nil {
		s.env = map[string]string{}
	}
	s.net = newNetwork()
	cur = nil
	for _, f := range resets {
		f()
	}
	s.drawStrategy()
	g := spawn(0, main)
	g.harness = true
	s.loop()
	// tear down
	s.killing = true
	for i := 0; i < len(s.gs); i++ {
		s.kill(s.gs[i])
	}
	res := &Result{Violation: s.viol, Steps: s.steps, Switches: s.switches, Preempts: s.preempts, SimNs: s.now,
		Hash: s.hash, Events: s.events, Counts: s.counts, Choices: s.rec, Labels: s.labels, Trace: s.trace, Gs: len(s.gs)}
	s.active = false
	s.gs, s.runnable, s.foreign, s.idle, s.timers, s.chans, s.net = nil, nil, nil, nil, nil, nil, nil
	cur = nil
	return res
}

func (s *scheduler) kill(g *G) {
	if !g.started || g.state == gDone {
		g.state = gDone
		return
	}
	done := make(chan struct{})
	go func() { // its own goroutine, because Goexit propagates out of stop
		defer close(done)
		cur = g
		g.stop()
	}()
	<-done
	g.state = gDone
	cur = nil
}

func (s *scheduler) drawStrategy() {
	st := &s.strat
	st.kind = decide("strat", func(r *rng) int { return []int{0, 1, 1, 1, 2, 2}[r.intn(6)] })
	st.jump = decide("jump", func(r *rng) int {
		if r.intn(4) == 0 {
			return []int{8, 40, 200}[r.intn(3)]
		}
		return 0
	})
	if s.replay {
		return
	}
	st.pickRand = s.r.intn(4) != 0
	st.mean = []int{1, 3, 8, 25, 80, 300}[s.r.intn(6)]
	if st.kind == 2 {
		d := s.r.intn(5)
		horizon := []int{300, 1500, 6000, 25000}[s.r.intn(4)]
		for i := 0; i < d; i++ {
			st.drops = append(st.drops, s.r.intn(horizon))
		}
		sort.Ints(st.drops)
	}
}

// decide records one decision. In replay it is read back instead.
func decide(label string, gen func(r *rng) int) int {
	var v int
	if s.replay {
		if s.pos < len(s.script) {
			v = int(s.script[s.pos])
		}
		s.pos++
	} else {
		v = gen(&s.r)
	}
	s.rec = append(s.rec, uint32(v))
	if s.tracing {
		s.labels = append(s.labels, label)
	}
	return v
}

// Choose returns a number in [0,n).
func Choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	v := decide(label, func(r *rng) int { return r.intn(n) })
	return v % n
}

// Flip is true with probability p (false is the simplest value).
func Flip(p float64, label string) bool {
	if p <= 0 {
		return false
	}
	return decide(label, func(r *rng) int {
		if r.float() < p {
			return 1
		}
		return 0
	})&1 == 1
}

// Pick returns one of the values; the first is the simplest.
func Pick[T any](label string, vs ...T) T { return vs[Choose(len(vs), label)] }

// Range returns a value in [lo,hi].
func Range(lo, hi int, label string) int { return lo + Choose(hi-lo+1, label) }

// Count counts an injected fault or a reached condition.
func Count(name string) {
	if s.counts != nil {
		s.counts[name]++
	}
}

func mix(v uint64) {
	h := s.hash
	h ^= v
	h *= 1099511628211
	s.hash = h ^ (h >> 29)
}

// Event mixes an observable event into the trace hash and logs it when tracing.
func Event(format string, a ...any) {
	str := fmt.Sprintf(format, a...)
	s.events++
	s.entered = 0
	s.stepCap = min(s.steps+s.cap0, 20*s.cap0) // something happened
	for i := 0; i < len(str); i++ {
		s.hash = (s.hash ^ uint64(str[i])) * 1099511628211
	}
	if s.tracing {
		s.traceAdd(str)
	}
}

// Logf logs only when tracing.
func Logf(format string, a ...any) {
	if s.tracing {
		s.traceAdd(fmt.Sprintf(format, a...))
	}
}

func (s *scheduler) traceAdd(str string) {
	if len(s.trace) >= 8000 {
		s.trace = append(append(s.trace[:1000:1000], "..."), s.trace[5000:]...)
	}
	id := -1
	if cur != nil {
		id = cur.id
	}
	s.trace = append(s.trace, fmt.Sprintf("step=%d t=%.6fs g%d %s", s.steps, float64(s.now)/1e9, id, str))
}

// ---------------------------------------------------------------- scheduling

func spawn(site uint32, f func()) *G {
	g := &G{id: len(s.gs), site: site, fn: f, lastSite: site}
	if s.strat.kind == 2 && !s.replay {
		g.prio = 1000 + s.r.intn(1000000)
	}
	s.gs = append(s.gs, g)
	s.runnable = append(s.runnable, g)
	return g
}

func (g *G) start() {
	g.started = true
	g.next, g.stop = iter.Pull(func(yield func(struct{}) bool) {
		g.yield = yield
		defer func() {
			g.state = gDone
			if r := recover(); r != nil {
				if s.killing {
					return
				}
				s.panicked(g, r)
			}
		}()
		g.fn()
	})
}

func (s *scheduler) panicked(g *G, r any) {
	if s.viol != nil {
		return
	}
	msg := fmt.Sprint(r)
	st := trimStack(string(debug.Stack()))
	s.viol = &Violation{Class: "panic: " + normalise(msg), Msg: msg, Stack: st, Step: s.steps, SimNs: s.now, GSite: siteName(g.site)}
	s.traceAdd("PANIC " + msg)
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, " +0x"); i > 0 {
				l = l[:i]
			}
		} else if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		out = append(out, l)
		if len(out) > 60 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func normalise(m string) string {
	var b strings.Builder
	d := false
	for _, c := range m {
		if c >= '0' && c <= '9' {
			if !d {
				b.WriteByte('#')
			}
			d = true
			continue
		}
		d = false
		b.WriteRune(c)
		if b.Len() > 120 {
			break
		}
	}
	return b.String()
}

func (s *scheduler) loop() {
	for s.viol == nil && !s.stopped {
		if len(s.foreign) > 0 {
			s.pollForeign()
		}
		if len(s.runnable) == 0 {
			if !s.fireNext() {
				if len(s.idle) > 0 {
					g := s.idle[0]
					s.idle = s.idle[1:]
					s.ready(g)
					continue
				}
				return
			}
			continue
		}
		if s.strat.jump > 0 && len(s.timers) > 0 && s.steps < s.fairAt {
			if decide("tick", func(r *rng) int {
				if r.intn(s.strat.jump) == 0 {
					return 1
				}
				return 0
			})&1 == 1 {
				s.fireNext()
			}
		}
		i := s.pick()
		g := s.runnable[i]
		copy(s.runnable[i:], s.runnable[i+1:])
		s.runnable = s.runnable[:len(s.runnable)-1]
		s.grant(g)
	}
}

func (s *scheduler) pick() int {
	n := len(s.runnable)
	if n == 1 || s.steps >= s.fairAt {
		return 0
	}
	v := decide("run", func(r *rng) int {
		switch s.strat.kind {
		case 2:
			best := 0
			for i, g := range s.runnable {
				if g.prio > s.runnable[best].prio {
					best = i
				}
			}
			return best
		default:
			if s.strat.pickRand {
				return r.intn(n)
			}
			if r.intn(8) == 0 {
				return r.intn(n)
			}
			return 0
		}
	})
	return v % n
}

const inf = 1 << 30

func (s *scheduler) newGap(g *G) {
	if s.steps >= s.fairAt {
		s.budget = 200
	} else {
		v := decide("gap", func(r *rng) int {
			switch s.strat.kind {
			case 0:
				return 0
			case 1:
				// geometric-ish
				m := s.strat.mean
				if m == 1 && len(s.runnable) > 0 {
					return 1 + r.intn(2)
				}
				if len(s.runnable) == 0 && m < 8 {
					m = 8
				}
				return 1 + r.intn(2*m)
			default:
				for len(s.strat.drops) > 0 {
					d := s.strat.drops[0] - s.steps
					if d <= 0 {
						// priority change point: the goroutine about to run drops to the bottom
						s.strat.drops = s.strat.drops[1:]
						s.strat.low--
						g.prio = s.strat.low
						if len(s.runnable) > 0 {
							return 1
						}
						continue
					}
					return d
				}
				return 0
			}
		})
		if v == 0 {
			s.budget = inf
		} else {
			s.budget = v
		}
	}
}

func (s *scheduler) grant(g *G) {
	s.steps++
	if s.steps > s.stepCap+10000 {
		s.viol = &Violation{Class: "livelock", Msg: fmt.Sprintf("nothing happened in %d steps; running goroutine started at %s, last at %s", s.cap0, siteName(g.site), siteName(g.lastSite)), Step: s.steps, SimNs: s.now, GSite: siteName(g.site)}
		if g.harness {
			s.viol.Class = "HARNESS"
		}
		s.traceAdd(s.viol.Class + " " + s.viol.Msg)
		s.runnable = append(s.runnable, g)
		return
	}
	s.newGap(g)
	if !g.started {
		g.start()
	}
	g.state = gRunning
	s.switches++
	mix(uint64(g.site)<<32 | uint64(g.lastSite))
	cur = g
	g.next()
	if g.state == gDone {
		g.fn, g.next, g.stop, g.yield, g.poll = nil, nil, nil, nil, nil
	}
	cur = nil
}

// Y is a preemption point.
func Y(site uint32) {
	if cur == nil {
		return
	}
	if s.killing {
		killed()
	}
	Cov[site&0xffff] = 1
	cur.lastSite = site
	s.steps++
	if s.steps > s.stepCap {
		if s.viol == nil {
			Fail("livelock", "nothing happened in %d steps; running at %s", s.cap0, siteName(site))
		}
	}
	s.budget--
	if s.budget <= 0 {
		if len(s.runnable) == 0 && len(s.foreign) == 0 && s.steps < s.fairAt {
			// nothing to switch to: just take another gap
			s.newGap(cur)
			return
		}
		s.preempts++
		yieldNow()
	}
}

// Y0 is a preemption point inside simulated primitives.
func Y0() {
	if cur != nil {
		Y(cur.lastSite)
	}
}

func killed() {
	runtime.Goexit()
}

func yieldNow() {
	g := cur
	g.state = gRunnable
	s.runnable = append(s.runnable, g)
	switchOut(g)
}

func switchOut(g *G) {
	if !g.yield(struct{}{}) || s.killing {
		s.killing = true
		cur = g
		killed()
	}
	cur = g
	g.state = gRunning
}

// Gosched yields the processor.
func Gosched() {
	if cur == nil {
		return
	}
	Y(cur.lastSite)
	if len(s.runnable) == 0 {
		// a spinning goroutine lets simulated time pass
		if len(s.timers) > 0 {
			s.fireNext()
		}
	}
	yieldNow()
}

// park blocks the current goroutine until ready is called on it.
func park(why string) {
	g := cur
	if g == nil {
		panic("vsim: blocking operation outside a simulated goroutine: " + why)
	}
	if s.killing {
		killed()
	}
	g.state = gParked
	g.why = why
	switchOut(g)
	g.why = ""
}

func (s *scheduler) ready(g *G) {
	if g.state == gParked {
		g.state = gRunnable
		s.runnable = append(s.runnable, g)
	}
}

func (s *scheduler) pollForeign() {
	k := 0
	for _, g := range s.foreign {
		if g.state != gParked || g.poll == nil {
			continue
		}
		if g.poll() {
			g.poll = nil
			s.ready(g)
			continue
		}
		s.foreign[k] = g
		k++
	}
	s.foreign = s.foreign[:k]
}

// Go starts a simulated goroutine.
func Go(site uint32, f func()) {
	if !s.active {
		panic("vsim: go statement outside a run at " + siteName(site))
	}
	if s.killing {
		return
	}
	spawn(site, f)
	if cur != nil {
		Y(cur.lastSite)
	}
}

// GoHarness starts a goroutine that belongs to the harness.
func GoHarness(f func()) {
	g := spawn(0, f)
	g.harness = true
}

// Self returns the running goroutine's number.
func Self() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

// Step returns the global step number, used as event sequence number.
func Step() int { s.steps++; return s.steps }

// WaitIdle blocks until nothing else can run and no timer is pending, or until
// maxVirtual simulated nanoseconds have passed.
func WaitIdle(maxVirtual int64) (idle bool) {
	g := cur
	woke := false
	var t *timer
	if maxVirtual > 0 {
		t = addTimer(maxVirtual, func() {
			for i, x := range s.idle {
				if x == g {
					s.idle = append(s.idle[:i], s.idle[i+1:]...)
					woke = true
					s.ready(g)
					return
				}
			}
		})
		t.ambient = true
	}
	s.idle = append(s.idle, g)
	park("wait-idle")
	if t != nil {
		t.dead = true
	}
	return !woke
}

// Leaked lists goroutines started by the code under test that are still alive.
func Leaked() []string {
	var out []string
	for _, g := range s.gs {
		if g.harness || g.state == gDone {
			continue
		}
		out = append(out, fmt.Sprintf("g%d started at %s, %s (last at %s)", g.id, siteName(g.site), g.why, siteName(g.lastSite)))
	}
	return out
}

// Fail reports a violation and ends the run.
func Fail(class, format string, a ...any) {
	if s.killing {
		if cur != nil {
			killed()
		}
		return
	}
	if s.viol == nil {
		v := &Violation{Class: class, Msg: fmt.Sprintf(format, a...), Step: s.steps, SimNs: s.now}
		if cur != nil {
			v.GSite = siteName(cur.site)
		}
		s.viol = v
		s.traceAdd("VIOLATION " + class + ": " + v.Msg)
	}
	if cur != nil {
		g := cur
		g.state = gParked
		g.why = "failed"
		switchOut(g)
	}
}

// maxMake is the number of elements that no slice or map is ever made with.
const maxMake = 1 << 26

// MakeLen stands for a length that something is made with. What would exhaust
// the memory of a real machine fails.
func MakeLen[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if uint64(n) > maxMake {
		if int64(n) < 0 && T(0)-1 < 0 {
			return n // panics
		}
		Fail("out-of-memory", "something is made with %d elements", n)
	}
	return n
}

// maxDepth is how deeply functions are never nested.
const maxDepth = 120000

// maxEntered is how often functions are never called between two events.
const maxEntered = 20000000

// Enter and Leave surround functions that may be recursive and never yield.
func Enter() {
	s.depth++
	if s.entered++; s.entered > maxEntered {
		Fail("endless-computation", "more than %d function calls and nothing happened", maxEntered)
	}
	if s.depth > maxDepth {
		Fail("stack-overflow", "more than %d nested calls", maxDepth)
	}
}

func Leave() { s.depth-- }

// Failed tells whether a violation was already recorded.
func Failed() bool { return s.viol != nil }

// Stop ends the run without a violation.
func Stop() {
	s.stopped = true
	if cur != nil {
		g := cur
		g.state = gParked
		switchOut(g)
	}
}

// ---------------------------------------------------------------- timers

func (s *scheduler) less(a, b *timer) bool { return a.at < b.at || (a.at == b.at && a.seq < b.seq) }

func addTimer(d int64, f func()) *timer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	at := s.now + d
	if at < s.now {
		at = 1<<63 - 1
	}
	t := &timer{at: at, seq: s.tseq, fn: f}
	h := append(s.timers, t)
	i := len(h) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !s.less(h[i], h[p]) {
			break
		}
		h[i], h[p] = h[p], h[i]
		i = p
	}
	s.timers = h
	return t
}

func (s *scheduler) popTimer() *timer {
	h := s.timers
	t := h[0]
	n := len(h) - 1
	h[0] = h[n]
	h[n] = nil
	h = h[:n]
	i := 0
	for {
		l := 2*i + 1
		if l >= n {
			break
		}
		if r := l + 1; r < n && s.less(h[r], h[l]) {
			l = r
		}
		if !s.less(h[l], h[i]) {
			break
		}
		h[i], h[l] = h[l], h[i]
		i = l
	}
	s.timers = h
	return t
}

// fireNext advances the clock to the next timer and runs it. Ambient timers
// (the WaitIdle limit) fire only if something else is still pending.
func (s *scheduler) fireNext() bool {
	for len(s.timers) > 0 && s.timers[0].dead {
		s.popTimer()
	}
	if len(s.timers) == 0 {
		return false
	}
	if s.timers[0].ambient {
		other := false
		for _, t := range s.timers {
			if !t.dead && !t.ambient {
				other = true
				break
			}
		}
		if !other {
			return false
		}
	}
	t := s.popTimer()
	if t.at > s.now {
		s.now = t.at
	}
	saved := cur
	cur = nil
	t.fn()
	cur = saved
	return true
}

// AfterNs runs f (in scheduler context: it must not block) after d simulated ns.
func AfterNs(d int64, f func()) func() {
	t := addTimer(d, f)
	return func() { t.dead = true }
}

// NowNs is the simulated time since the start of the run.
func NowNs() int64 { return s.now }

// WallNs is the simulated wall clock.
func WallNs() int64 { return 1700000000000000000 + s.now + s.wallOff }

// JumpWall moves the wall clock.
func JumpWall(d int64) { s.wallOff += d }

// SleepNs suspends the goroutine.
func SleepNs(d int64) {
	if cur == nil {
		return
	}
	Y0()
	g := cur
	addTimer(d, func() { s.ready(g) })
	park("sleep")
}

// Active tells whether a run is in progress on a simulated goroutine.
func Active() bool { return cur != nil }

// ---------------------------------------------------------------- channels

type sudog struct {
	g    *G
	val  any
	ok   bool
	idx  int
	done *bool // set once one case of the select fired
	fire *sudog
}

type hchan struct {
	capn   int
	buf    []any
	closed bool
	recvq  []*sudog
	sendq  []*sudog
	keep   any
}

func chptr[C any](c C) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c))) }

// Make creates a channel known to the simulator.
func Make[C ~chan E, E any](n ...int) C {
	k := 0
	if len(n) > 0 {
		k = n[0]
	}
	if k < 0 {
		panic("makechan: size out of range")
	}
	c := make(C, k)
	h := &hchan{capn: k, keep: c}
	if s.active {
		s.chans[chptr(c)] = h
	} else {
		permChans[chptr(c)] = h
	}
	return c
}

func lookup(p uintptr) *hchan {
	if h := s.chans[p]; h != nil {
		return h
	}
	return permChans[p]
}

func deq(q *[]*sudog) *sudog {
	for len(*q) > 0 {
		w := (*q)[0]
		(*q)[0] = nil
		*q = (*q)[1:]
		if w.done != nil {
			if *w.done {
				continue
			}
			*w.done = true
		}
		if w.g.state != gParked {
			continue
		}
		return w
	}
	return nil
}

func wake(w *sudog) {
	if w.fire != nil {
		w.fire.idx, w.fire.val, w.fire.ok = w.idx, w.val, w.ok
	}
	s.ready(w.g)
}

// trySend returns true when the value was delivered.
func (h *hchan) trySend(v any) bool {
	if h.closed {
		panic(plainError("send on closed channel"))
	}
	if w := deq(&h.recvq); w != nil {
		w.val, w.ok = v, true
		wake(w)
		return true
	}
	if len(h.buf) < h.capn {
		h.buf = append(h.buf, v)
		return true
	}
	return false
}

func (h *hchan) tryRecv() (v any, ok, done bool) {
	if len(h.buf) > 0 {
		v = h.buf[0]
		h.buf[0] = nil
		h.buf = h.buf[1:]
		if w := deq(&h.sendq); w != nil {
			h.buf = append(h.buf, w.val)
			w.ok = true
			wake(w)
		}
		return v, true, true
	}
	if w := deq(&h.sendq); w != nil {
		v = w.val
		w.ok = true
		wake(w)
		return v, true, true
	}
	if h.closed {
		return nil, false, true
	}
	return nil, false, false
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func unbox[E any](v any) (e E) {
	if v == nil {
		return
	}
	return v.(E)
}

// SendTo sends to a channel.
func SendTo[C ~chan E | ~chan<- E, E any](c C) func(E) {
	return func(v E) {
		Y0()
		p := chptr(c)
		if p == 0 {
			park("send on nil channel")
		}
		h := lookup(p)
		if h == nil {
			panic("vsim: send on a channel unknown to the simulator")
		}
		if h.trySend(v) {
			return
		}
		w := &sudog{g: cur, val: v}
		h.sendq = append(h.sendq, w)
		park("chan send")
		if !w.ok {
			panic(plainError("send on closed channel"))
		}
	}
}

// Recv2 receives from a channel.
func Recv2[C ~chan E | ~<-chan E, E any](c C) (E, bool) {
	Y0()
	p := chptr(c)
	if p == 0 {
		park("receive on nil channel")
	}
	h := lookup(p)
	if h == nil {
		return foreignRecv[C, E](c)
	}
	v, ok, done := h.tryRecv()
	if done {
		return unbox[E](v), ok
	}
	w := &sudog{g: cur}
	h.recvq = append(h.recvq, w)
	park("chan receive")
	return unbox[E](w.val), w.ok
}

// Recv receives from a channel.
func Recv[C ~chan E | ~<-chan E, E any](c C) E {
	v, _ := Recv2[C, E](c)
	return v
}

func asRecv[C ~chan E | ~<-chan E, E any](c C) <-chan E {
	return *(*<-chan E)(unsafe.Pointer(&c))
}

func foreignRecv[C ~chan E | ~<-chan E, E any](c C) (E, bool) {
	rc := asRecv[C, E](c)
	var v E
	var ok bool
	poll := func() bool {
		select {
		case v, ok = <-rc:
			return true
		default:
			return false
		}
	}
	if poll() {
		return v, ok
	}
	cur.poll = poll
	s.foreign = append(s.foreign, cur)
	park("chan receive (foreign)")
	return v, ok
}

// Close closes a channel.
func Close[C ~chan E | ~chan<- E, E any](c C) {
	Y0()
	p := chptr(c)
	if p == 0 {
		panic(plainError("close of nil channel"))
	}
	h := lookup(p)
	if h == nil {
		panic("vsim: close of a channel unknown to the simulator")
	}
	if h.closed {
		panic(plainError("close of closed channel"))
	}
	h.closed = true
	for {
		w := deq(&h.recvq)
		if w == nil {
			break
		}
		w.val, w.ok = nil, false
		wake(w)
	}
	for {
		w := deq(&h.sendq)
		if w == nil {
			break
		}
		w.ok = false
		wake(w)
	}
}

// Len is len of a channel.
func Len(c any) int {
	Y0()
	v := reflect.ValueOf(c)
	if h := lookup(v.Pointer()); h != nil {
		return len(h.buf)
	}
	return v.Len()
}

// Case is one case of a select.
type Case struct {
	send bool
	h    *hchan
	val  any
	poll func() (any, bool, bool)
	null bool
}

// CaseRecv makes a receive case.
func CaseRecv[C ~chan E | ~<-chan E, E any](c C) Case {
	p := chptr(c)
	if p == 0 {
		return Case{null: true}
	}
	if h := lookup(p); h != nil {
		return Case{h: h}
	}
	rc := asRecv[C, E](c)
	return Case{poll: func() (any, bool, bool) {
		select {
		case v, ok := <-rc:
			return v, ok, true
		default:
			return nil, false, false
		}
	}}
}

// CaseSend makes a send case.
func CaseSend[C ~chan E | ~chan<- E, E any](c C) func(E) Case {
	return func(v E) Case {
		p := chptr(c)
		if p == 0 {
			return Case{null: true}
		}
		return Case{send: true, h: lookup(p), val: v}
	}
}

// Sel is the outcome of a select.
type Sel struct {
	Idx int
	val any
	ok  bool
}

// SelVal extracts the received value.
func SelVal[C ~chan E | ~<-chan E, E any](c C, x Sel) (E, bool) { return unbox[E](x.val), x.ok }

// Select performs a select; -1 is the default case.
func Select(hasDefault bool, cases ...Case) Sel {
	Y0()
	var ready []int
	for i := range cases {
		if cases[i].ready() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[Choose(len(ready), "select")]
		c := &cases[i]
		if c.send {
			c.h.trySend(c.val)
			return Sel{Idx: i}
		}
		if c.poll != nil {
			v, ok, _ := c.poll()
			return Sel{Idx: i, val: v, ok: ok}
		}
		v, ok, _ := c.h.tryRecv()
		return Sel{Idx: i, val: v, ok: ok}
	}
	if hasDefault {
		return Sel{Idx: -1}
	}
	fired := false
	out := &sudog{idx: -1}
	anyForeign := false
	for i := range cases {
		c := &cases[i]
		switch {
		case c.null:
		case c.poll != nil:
			anyForeign = true
		case c.send:
			c.h.sendq = append(c.h.sendq, &sudog{g: cur, val: c.val, idx: i, done: &fired, fire: out})
		default:
			c.h.recvq = append(c.h.recvq, &sudog{g: cur, idx: i, done: &fired, fire: out})
		}
	}
	if anyForeign {
		cur.poll = func() bool {
			if fired {
				return false
			}
			for i := range cases {
				if cases[i].poll == nil {
					continue
				}
				if v, ok, d := cases[i].poll(); d {
					fired = true
					out.idx, out.val, out.ok = i, v, ok
					return true
				}
			}
			return false
		}
		s.foreign = append(s.foreign, cur)
	}
	g := cur
	park("select")
	g.poll = nil
	if out.idx < 0 {
		panic("vsim: select woke without a case")
	}
	if cases[out.idx].send && !out.ok {
		panic(plainError("send on closed channel"))
	}
	return Sel{Idx: out.idx, val: out.val, ok: out.ok}
}

func (c *Case) ready() bool {
	switch {
	case c.null:
		return false
	case c.poll != nil:
		// Peeking at a foreign channel: they are only ever closed, never sent to,
		// so receiving twice is harmless.
		_, _, d := c.poll()
		return d
	case c.send:
		return c.h.closed || len(c.h.buf) < c.h.capn || live(c.h.recvq)
	default:
		return c.h.closed || len(c.h.buf) > 0 || live(c.h.sendq)
	}
}

func live(q []*sudog) bool {
	for _, w := range q {
		if (w.done == nil || !*w.done) && w.g.state == gParked {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- wait queues for shims

// Queue is a list of waiting goroutines, used by the sync shims.
type Queue struct{ q []*G }

// Wait parks the current goroutine on the queue.
func (q *Queue) Wait(why string) {
	q.q = append(q.q, cur)
	park(why)
}

// WakeOne readies one waiter.
func (q *Queue) WakeOne() bool {
	for len(q.q) > 0 {
		g := q.q[0]
		q.q = q.q[1:]
		if g.state == gParked {
			s.ready(g)
			return true
		}
	}
	return false
}

// WakeAll readies all waiters.
func (q *Queue) WakeAll() {
	for q.WakeOne() {
	}
}

// Len is the number of waiters.
func (q *Queue) Len() int { return len(q.q) }

// ---------------------------------------------------------------- maps

// NoteKey gives a pointer used as a map key a deterministic identity.
func NoteKey[K any](k K) K {
	if s.active {
		var a any = k
		p := ifaceData(a)
		if _, ok := s.keyIDs[p]; !ok {
			s.keyIDs[p] = len(s.keyIDs) + 1
			s.keyKeep = append(s.keyKeep, a)
		}
	}
	return k
}

func ifaceData(a any) uintptr { return uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&a))[1]) }

// Keys lists the keys of a map in a deterministic order (rotated by a choice).
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) > 1 {
		key := func(k K) (uint64, string) {
			switch v := any(k).(type) {
			case string:
				return 0, v
			case int:
				return uint64(v), ""
			case uint32:
				return uint64(v), ""
			case uint64:
				return v, ""
			}
			if id, ok := s.keyIDs[ifaceData(any(k))]; ok && isPtr(any(k)) {
				return uint64(id), ""
			}
			return 0, fmt.Sprintf("%T %v", k, k)
		}
		sort.Slice(ks, func(i, j int) bool {
			a, as := key(ks[i])
			b, bs := key(ks[j])
			if a != b {
				return a < b
			}
			return as < bs
		})
		if s.active {
			if r := Choose(len(ks), "maporder"); r > 0 {
				ks = append(ks[r:len(ks):len(ks)], ks[:r]...)
			}
		}
	}
	return ks
}

func isPtr(a any) bool {
	return strings.HasPrefix(fmt.Sprintf("%T", a), "*")
}

// Env / files ----------------------------------------------------------------

// Getenv reads the simulated environment.
func Getenv(k string) (string, bool) { v, ok := s.env[k]; return v, ok }

// Setenv changes the simulated environment.
func Setenv(k, v string) { s.env[k] = v }

// SetFile defines a file of the simulated file system.
func SetFile(name string, b []byte) { s.files[name] = b }

// SetFileFault installs a fault function for reads.
func SetFileFault(f func(string) error) { s.fileErr = f }

// ReadFile reads a simulated file.
func ReadFile(name string) ([]byte, error, bool) {
	Y0()
	if s.fileErr != nil {
		if err := s.fileErr(name); err != nil {
			return nil, err, true
		}
	}
	b, ok := s.files[name]
	return append([]byte(nil), b...), nil, ok
}

// Rand64 returns simulated randomness (not recorded as a schedule choice, but a
// function of the choices so far).
func Rand64() uint64 {
	s.pools++
	r := rng{s.hash ^ uint64(s.pools)*0x9e3779b97f4a7c15}
	return r.next()
}

// GC forces a collection (used by reachability oracles).
func GC() { runtime.GC() }

// NumG is the number of live goroutines.
func NumG() int {
	n := 0
	for _, g := range s.gs {
		if g.state != gDone {
			n++
		}
	}
	return n
}

// TrySend delivers a value without blocking (scheduler context).
func TrySend[C ~chan E, E any](c C, v E) bool {
	if h := lookup(chptr(c)); h != nil && !h.closed {
		return h.trySend(v)
	}
	return false
}

// Drain empties a channel's buffer.
func Drain[C ~chan E, E any](c C) {
	if h := lookup(chptr(c)); h != nil {
		h.buf = nil
	}
}

// Killing is true while leftover goroutines are torn down.
func Killing() bool { return s.killing }

// Zero clears a variable.
func Zero[T any](p *T) { var z T; *p = z }

// ZeroOf gives the zero element of a channel.
func ZeroOf[C ~chan E | ~<-chan E, E any](c C) (e E) { return }

type mapState struct{ r, w int }

// MapR opens a read window on a map: like the real runtime, a concurrent
// unsynchronised write is fatal.
func MapR[M ~map[K]V, K comparable, V any](m M) {
	if cur == nil || m == nil {
		return
	}
	st := mapStateOf(*(*uintptr)(unsafe.Pointer(&m)))
	if st.w > 0 {
		panic("fatal error: concurrent map read and map write")
	}
	st.r++
	Y0()
	st.r--
}

// MapW opens a write window on a map.
func MapW[M ~map[K]V, K comparable, V any](m M) {
	if cur == nil || m == nil {
		return
	}
	st := mapStateOf(*(*uintptr)(unsafe.Pointer(&m)))
	if st.w > 0 || st.r > 0 {
		panic("fatal error: concurrent map writes")
	}
	st.w++
	Y0()
	st.w--
}

func mapStateOf(p uintptr) *mapState {
	if s.maps == nil {
		s.maps = map[uintptr]*mapState{}
	}
	st := s.maps[p]
	if st == nil {
		st = &mapState{}
		s.maps[p] = st
	}
	return st
}

// Quick runs f, which does not block, in one go. Its steps do not count.
func Quick(f func()) {
	if cur == nil {
		f()
		return
	}
	steps, budget := s.steps, s.budget
	s.steps, s.budget = -inf, inf
	f()
	s.steps, s.budget = steps, budget
}
