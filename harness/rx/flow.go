package main

import (
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
)

// awaited is something that a step waits for.
type awaited struct {
	a     await.Awaitable
	begun bool // its end has been signalled, or is about to
	get   func()
}

type flowRun struct {
	name    string
	isFlux  bool
	n       int
	f       *flow.Flow[int]
	ran     int
	running bool
	waits   []*awaited // what the last step awaits
	inStep  bool
	ending  int // the flow's ending: step number, or 0
	how     int
	over    bool // something that ends the flow has returned
	ended   bool // the flow was made to end
	last    bool
	depth   int

	items, wantItems int
	success, errors  int
	completes        int
	fin              int
	sig              rx.SignalType
	errText          string
	val              int
	started          bool
	outside          bool
	overlap          int // steps that may have been about to start when it ended
}

// How a flow ends.
const (
	hNothing = iota
	hResult
	hError    // f.Error
	hStepFail // the step returns an error
	hEnd      // f.End
	hCount
)

func (r *flowRun) String() string { return fmt.Sprintf("flow %s of %d steps", r.name, r.n) }

func newFlow(name string, depth int) *flowRun {
	r := &flowRun{name: name, n: 1 + vsim.Choose(6, "steps"), isFlux: vsim.Flip(0.4, "flux"), f: flow.New[int](), depth: depth}
	if depth == 0 && vsim.Flip(0.01, "steps.many") {
		r.n = 7 + vsim.Choose(60, "steps")
	}
	r.how = []int{hResult, hResult, hResult, hResult, hError, hStepFail, hEnd, hNothing}[vsim.Choose(8, "how")]
	r.ending = r.n
	if vsim.Flip(0.25, "ends.early") {
		r.ending = 1 + vsim.Choose(r.n, "ends.at")
	}
	var steps []flow.StepFn
	for k := 1; k <= r.n; k++ {
		steps = append(steps, func() (await.Group, error) { return r.step(k) })
	}
	if vsim.Flip(0.3, "steps.twice") && r.n > 1 {
		r.f.Steps(steps[:1]...).Steps(steps[1:]...)
	} else {
		r.f.Steps(steps...)
	}
	return r
}

func (r *flowRun) step(k int) (await.Group, error) {
	vsim.Event("%s step %d", r.name, k)
	if r.over && r.overlap == 0 {
		fail("step-after-end", "%s: step %d runs after the flow has ended", r, k)
	}
	if r.over {
		r.overlap--
	}
	if k <= r.ran {
		fail("step-twice", "%s: step %d runs again", r, k)
	} else if k != r.ran+1 {
		fail("step-skipped", "%s: step %d runs after step %d", r, k, r.ran)
	}
	if r.running {
		fail("step-overlaps", "%s: step %d runs while step %d does", r, k, r.ran)
	}
	for _, a := range r.waits {
		if !a.begun {
			fail("step-early", "%s: step %d runs before everything that step %d awaited has ended", r, k, r.ran)
		}
		if a.get != nil {
			a.get()
		}
	}
	r.ran = k
	r.running = true
	r.waits = nil
	if vsim.Flip(0.2, "step.slow") {
		vsim.SleepNs(int64(vsim.Choose(10, "step.ms")) * ms)
	}
	if r.isFlux && vsim.Flip(0.4, "step.items") {
		for n := vsim.Choose(3, "step.n"); n > 0 && !r.ended; n-- {
			r.wantItems++
			r.f.Next(r.wantItems)
		}
	}
	if k == r.ending {
		r.running = false
		switch r.how {
		case hResult:
			r.ended = true
			r.over = true
			if r.isFlux {
				return r.f.Complete()
			}
			return r.f.Success(4711)
		case hError:
			r.ended = true
			r.over = true
			return r.f.Error(errors.New("flow"))
		case hStepFail:
			r.ended = true
			r.over = true
			return nil, errors.New("flow")
		case hEnd:
			r.over = true
			return r.f.End()
		}
		r.running = true
	}
	var g []await.Awaitable
	n := vsim.Choose(5, "awaits")
	if vsim.Flip(0.005, "awaits.many") {
		n = 5 + vsim.Choose(60, "awaits")
	}
	for ; n > 0; n-- {
		a := r.await()
		r.waits = append(r.waits, a)
		g = append(g, a.a)
	}
	r.running = false
	if len(g) == 0 && vsim.Flip(0.5, "await.nil") {
		return nil, nil
	}
	return await.All(g...)
}

// await makes something that ends at some time or has ended already.
func (r *flowRun) await() *awaited {
	a := &awaited{}
	kind := vsim.Choose(8, "await.kind")
	if kind == 7 && r.depth >= 2 {
		kind = 0
	}
	end := func(f func()) {
		g := func() {
			a.begun = true
			vsim.Event("%s awaited ends", r.name)
			f()
		}
		if vsim.Flip(0.25, "await.ended") {
			g()
		} else {
			when("await", g)
		}
	}
	switch kind {
	case 0, 1:
		p := mono.NewProcessor[int]()
		p.Subscribe(mono.Subscribe[int]{})
		if vsim.Flip(0.7, "await.ok") {
			v := 1 + vsim.Choose(9, "await.value")
			end(func() { p.Success(v) })
			a.get = func() {
				if x, err := p.Get(); err != nil || x != v {
					fail("wrong-value", "%s: what was awaited has the value %d, %v instead of %d", r, x, err, v)
				}
			}
		} else {
			end(func() { p.Error(errors.New("awaited")) })
			a.get = func() {
				if _, err := p.Get(); err == nil || err.Error() != "awaited" {
					fail("wrong-value", "%s: what was awaited failed but has the error %v", r, err)
				}
			}
		}
		a.a = p
		if vsim.Flip(0.3, "await.map") {
			m := mono.Map(mono.Mono[int](p), func(v int) (int, error) { return v, nil })
			a.a = m
		}
	case 2:
		a.a, a.begun = mono.Just(1), true
	case 3:
		a.a, a.begun = mono.Error[int](errors.New("awaited")), true
	case 4, 5:
		p := flux.NewProcessor[int]()
		p.Subscribe(flux.Subscribe[int]{})
		switch vsim.Choose(3, "await.end") {
		case 0:
			end(func() { p.Next(1); p.Complete() })
		case 1:
			end(func() { p.Error(errors.New("awaited")) })
		case 2:
			end(func() { p.Subscription().Cancel() })
		}
		a.a = p
	case 6:
		a.a, a.begun = flux.Error[int](errors.New("awaited")), true
	case 7:
		// another flow that certainly ends
		f := newFlow(r.name+".n", r.depth+1)
		f.how = hResult
		a.begun = true // judged by the other flow
		if f.isFlux {
			s := f.f.Flux()
			f.subFlux(s)
			a.a = s
		} else {
			s := f.f.Mono()
			f.subMono(s)
			a.a = s
		}
		flows = append(flows, f)
	}
	return a
}

var flows []*flowRun

func (r *flowRun) final(sig rx.SignalType) {
	vsim.Event("%s finally %v", r.name, sig)
	r.fin++
	r.sig = sig
	if r.fin > 1 || r.success+r.errors+r.completes != 1 {
		fail("end-twice", "%s: final callback %d times after %d results and %d errors", r, r.fin, r.success+r.completes, r.errors)
	}
}

func (r *flowRun) failed(err error) {
	vsim.Event("%s error %v", r.name, err)
	r.errors++
	r.errText = err.Error()
	if !r.outside && r.how != hError && r.how != hStepFail || r.outside && r.errText != "flow" && r.errText != "outside" || !r.outside && r.errText != "flow" {
		fail("wrong-outcome", "%s: ended with the error %q", r, r.errText)
	}
	r.once()
}

func (r *flowRun) once() {
	if r.success+r.errors+r.completes > 1 {
		fail("end-twice", "%s: ended %d times", r, r.success+r.errors+r.completes)
	}
}

func (r *flowRun) subMono(s mono.Mono[int]) {
	r.started = true
	s.Subscribe(mono.Subscribe[int]{
		OnSuccess: func(v int) {
			vsim.Event("%s success", r.name)
			r.success++
			if v != 4711 || !r.ended {
				fail("wrong-outcome", "%s: ended with the value %d", r, v)
			}
			r.once()
		},
		OnError: r.failed,
		Finally: r.final,
	})
}

func (r *flowRun) subFlux(s flux.Flux[int]) {
	r.started = true
	s.Subscribe(flux.Subscribe[int]{
		OnNext: func(v int) {
			r.items++
			if v != r.items {
				fail("wrong-items", "%s: item %d is %d", r, r.items, v)
			}
		},
		OnComplete: func() {
			vsim.Event("%s complete", r.name)
			r.completes++
			if !r.ended || r.how != hResult && !r.outside {
				fail("wrong-outcome", "%s: completed", r)
			}
			r.once()
		},
		OnError: r.failed,
		Finally: r.final,
	})
}

func (r *flowRun) judge() {
	if !r.started {
		return
	}
	pending := false
	for _, a := range r.waits {
		pending = pending || !a.begun
	}
	if pending {
		hlib.Bad("%s: awaits something that never ends", r)
	}
	if r.outside {
		if r.fin != 1 {
			fail("no-ending", "%s: ended from outside but the final callback ran %d times", r, r.fin)
		}
		return
	}
	want := r.n
	if r.how != hNothing {
		want = r.ending
	}
	if r.ran < want {
		fail("stuck", "%s: step %d never runs, although everything that step %d awaited has ended", r, r.ran+1, r.ran)
	}
	if r.ran > want {
		fail("step-after-end", "%s: %d steps ran, it ends in step %d", r, r.ran, want)
	}
	ends := r.how == hResult || r.how == hError || r.how == hStepFail
	if ends && r.fin != 1 {
		fail("no-ending", "%s: has ended but the final callback ran %d times", r, r.fin)
	}
	if !ends && r.fin > 0 {
		fail("end-invented", "%s: ended with %v although no step ended it", r, r.sig)
	}
	if r.isFlux && r.items != r.wantItems {
		fail("wrong-items", "%s: %d of %d items were delivered", r, r.items, r.wantItems)
	}
}

func runFlows(outside bool) func() {
	return func() {
		flows = nil
		for k := 1 + vsim.Choose(3, "flows"); k > 0; k-- {
			r := newFlow(fmt.Sprintf("f%d", k), 0)
			r.outside = outside
			flows = append(flows, r)
			when("flow", func() {
				if r.isFlux {
					r.subFlux(r.f.Flux())
				} else {
					r.subMono(r.f.Mono())
				}
			})
			if outside {
				when("outside", func() {
					for r.ran == 0 {
						vsim.SleepNs(ms)
					}
					vsim.Event("%s outside", r.name)
					r.ended = true
					if vsim.Flip(0.5, "outside.error") {
						_, _ = r.f.Error(errors.New("outside"))
					} else if r.isFlux {
						_, _ = r.f.Complete()
					} else {
						_, _ = r.f.Success(4711)
					}
					// The flow has ended. A step may be about to start
					// unless the last one still runs or awaits something.
					r.overlap = 1
					if r.running {
						r.overlap = 0
					}
					for _, a := range r.waits {
						if !a.begun {
							r.overlap = 0
						}
					}
					r.over = true
				})
			}
		}
		idle()
		for _, r := range flows {
			r.judge()
		}
	}
}

func init() {
	hlib.Register("C15", "flows", 6, runFlows(false))
	hlib.Register("C15", "ended-outside", 2, runFlows(true))
}
