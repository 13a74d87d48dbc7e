package main

import (
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
)

// Kinds of monos.
const (
	mSync = iota
	mAsync
	mProcessor
	mJust
	mError
)

type monoRun struct {
	kind   int
	maps   int
	failL  int // the map that fails
	m      mono.Mono[int]
	sink   mono.Sink[int]
	begun  map[string]bool // outcomes signalled so far
	over   bool            // a signal has returned
	subbed bool

	got, errored int
	val          int
	errText      string
	fin          int
	sig          rx.SignalType
	notes        []*note
	blocked      bool
	returned     bool
	hasFin       bool
	cbs          bool
	serial       bool // signals come one after another
	first        string
}

func (r *monoRun) String() string {
	s := []string{"synchronous mono", "asynchronous mono", "mono processor", "just", "failed mono"}[r.kind]
	if r.maps > 0 {
		s += fmt.Sprintf(" mapped %d times", r.maps)
	}
	return s
}

// signal settles the mono, or tries to.
func (r *monoRun) signal(name string) {
	k := r.sink
	if k == nil {
		return
	}
	vsim.Event("signal %s", name)
	r.begin(name)
	if name[0] == 'v' {
		k.Success(valueOf(name))
	} else {
		k.Error(errors.New(name))
	}
	r.over = true
}

func valueOf(name string) int {
	n := 0
	_, _ = fmt.Sscanf(name, "v%d", &n)
	return n
}

func (r *monoRun) begin(name string) {
	if r.first == "" {
		r.first = name
	}
	if !r.over { // a signal that comes after another has returned is void
		r.begun[name] = true
	}
}

// outcome is what a signal becomes after the maps.
func (r *monoRun) outcome(name string) string {
	if name[0] == 'v' && r.failL > 0 {
		return "transform"
	}
	return name
}

func (r *monoRun) check(what, got string) {
	for n := range r.begun {
		if r.outcome(n) == got {
			return
		}
	}
	fail("wrong-outcome", "%s: %s is %q; signalled were %v", r, what, got, len(r.begun))
}

func newMono() *monoRun {
	r := &monoRun{begun: map[string]bool{}}
	r.kind = []int{mSync, mAsync, mAsync, mProcessor, mProcessor, mProcessor, mJust, mError}[vsim.Choose(8, "kind")]
	r.maps = vsim.Choose(3, "maps")
	if r.maps > 0 && vsim.Flip(0.25, "map.fails") {
		r.failL = 1 + vsim.Choose(r.maps, "map.level")
	}
	signals := 1 + vsim.Choose(3, "signals")
	var names []string
	for k := 1; k <= signals; k++ {
		if vsim.Flip(0.35, "signal.error") {
			names = append(names, fmt.Sprintf("e%d", k))
		} else {
			names = append(names, fmt.Sprintf("v%d", k))
		}
	}
	if vsim.Flip(0.1, "signal.none") {
		names = nil
	}
	r.serial = vsim.Flip(0.4, "signal.serial")
	fire := func() {
		if r.serial {
			when("signal", func() {
				for _, n := range names {
					r.signal(n)
				}
			})
			return
		}
		for _, n := range names {
			when("signal", func() { r.signal(n) })
		}
	}
	switch r.kind {
	case mSync:
		r.m = mono.Create(func(k mono.Sink[int]) {
			r.sink = k
			for _, n := range names {
				r.signal(n)
			}
		})
	case mAsync:
		r.m = mono.Create(func(k mono.Sink[int]) {
			r.sink = k
			fire()
		})
	case mProcessor:
		p := mono.NewProcessor[int]()
		r.m, r.sink = p, p
		fire()
	case mJust:
		r.m = mono.Just(7)
		r.begin("v7")
		r.over = true
	case mError:
		r.m = mono.Error[int](errors.New("e8"))
		r.begin("e8")
		r.over = true
	}
	for k := 1; k <= r.maps; k++ {
		r.m = mono.Map(r.m, func(v int) (int, error) {
			if k == r.failL {
				return 0, errors.New("transform")
			}
			return v + level, nil
		})
	}
	return r
}

func (r *monoRun) value(v int) string {
	if v/level != r.maps {
		fail("not-mapped", "%s: the value went through %d maps", r, v/level)
	}
	return fmt.Sprintf("v%d", v%level)
}

func (r *monoRun) callbacks() mono.Subscribe[int] {
	c := mono.Subscribe[int]{
		OnSuccess: func(v int) {
			vsim.Event("success %d", v)
			r.got++
			r.val = v
			r.once()
			r.check("value", r.value(v))
		},
		OnError: func(err error) {
			vsim.Event("error %v", err)
			r.errored++
			r.errText = err.Error()
			r.once()
			r.check("error", r.errText)
		},
	}
	r.hasFin = vsim.Flip(0.85, "final")
	if r.hasFin {
		c.Finally = func(sig rx.SignalType) {
			vsim.Event("finally %v", sig)
			r.fin++
			r.sig = sig
			want := rx.SignalComplete
			if r.errored > 0 {
				want = rx.SignalError
			}
			if r.fin > 1 {
				fail("final-twice", "%s: the final callback ran %d times", r, r.fin)
			}
			if r.cbs && (r.got+r.errored != 1 || sig != want) {
				fail("wrong-final", "%s: final signal %v after %d values and %d errors", r, sig, r.got, r.errored)
			}
		}
	}
	r.cbs = !vsim.Flip(0.05, "nocallbacks")
	if !r.cbs {
		c.OnSuccess, c.OnError = nil, nil
	}
	return c
}

func (r *monoRun) once() {
	if r.got+r.errored > 1 {
		fail("end-twice", "%s: %d endings", r, r.got+r.errored)
	}
	if r.fin > 0 {
		fail("end-late", "%s: an ending after the final callback", r)
	}
}

func (r *monoRun) note(at string) {
	n := &note{at: at}
	r.notes = append(r.notes, n)
	r.m.Notify(func(sig rx.SignalType) {
		n.n++
		n.sig = sig
		vsim.Event("notified %s %v", at, sig)
		if n.n > 1 {
			fail("notified-twice", "%s: the completion callback registered %s ran %d times", r, at, n.n)
		}
		if len(r.begun) == 0 {
			fail("notified-early", "%s: the completion callback registered %s ran before any end", r, at)
			return
		}
		r.get(sig)
	})
}

// get reads the outcome after the end.
func (r *monoRun) get(sig rx.SignalType) {
	v, err := r.m.Get()
	if err != nil {
		r.check("Get's error", err.Error())
		if sig != rx.SignalError {
			fail("wrong-notice", "%s: ended with %v but Get fails with %v", r, sig, err)
		}
	} else {
		r.check("Get's value", r.value(v))
		if sig != rx.SignalComplete && r.kind != mJust {
			fail("wrong-notice", "%s: ended with %v but Get has a value", r, sig)
		}
	}
}

func monos() {
	for k := 1 + vsim.Choose(2, "monos"); k > 0; k-- {
		r := newMono()
		c := r.callbacks()
		for k := vsim.Choose(5, "notes"); k > 0; k-- {
			if vsim.Flip(0.4, "note.first") && r.kind != mJust && r.kind != mError {
				r.note("first")
			} else {
				when("note", func() {
					// a mapped constant ends when it is subscribed
					if r.kind < mJust || r.subbed {
						r.note("at any time")
					}
				})
			}
		}
		when("subscribe", func() {
			if vsim.Flip(0.3, "block") {
				r.blocked = true
				v, err := r.m.Block()
				r.returned = true
				vsim.Event("block returned %v", err)
				if err != nil {
					r.check("Block's error", err.Error())
				} else {
					r.check("Block's value", r.value(v))
				}
				return
			}
			r.m.Subscribe(c)
			r.subbed = true
		})
		idle()
		r.judge()
		if r.subbed && r.over {
			r.note("last")
			if r.maps == 0 && vsim.Flip(0.3, "block.last") {
				done := false
				vsim.GoHarness(func() {
					v, err := r.m.Block()
					if err != nil {
						r.check("Block's error after the end", err.Error())
					} else {
						r.check("Block's value after the end", r.value(v))
					}
					done = true
				})
				idle()
				if !done {
					fail("block-hangs", "%s: Block after the end does not return", r)
				}
			}
			r.signal("v99")
			r.signal("e98")
			idle()
			r.judge()
		}
	}
}

func (r *monoRun) judge() {
	if r.blocked {
		if len(r.begun) > 0 && !r.returned {
			fail("block-hangs", "%s: it has ended but Block does not return", r)
		}
		if len(r.begun) == 0 && r.returned {
			fail("block-early", "%s: Block returned although it has not ended", r)
		}
		return
	}
	if !r.subbed {
		return
	}
	if len(r.begun) > 0 && (r.cbs && r.got+r.errored != 1 || r.hasFin && r.fin != 1) {
		fail("no-ending", "%s: it has ended; %d values, %d errors, final callback %d times", r, r.got, r.errored, r.fin)
	}
	if r.serial && r.cbs && r.first != "" && r.got+r.errored == 1 {
		res := r.errText
		if r.got > 0 {
			res = r.value(r.val)
		}
		if want := r.outcome(r.first); res != want {
			fail("wrong-outcome", "%s: the first outcome was %q but it ended with %q", r, want, res)
		}
	}
	for _, n := range r.notes {
		if len(r.begun) > 0 && n.n != 1 {
			fail("not-notified", "%s: the completion callback registered %s ran %d times", r, n.at, n.n)
		}
		if r.fin > 0 && n.sig != r.sig {
			fail("wrong-notice", "%s: the completion callback registered %s got %v, the final one %v", r, n.at, n.sig, r.sig)
		}
	}
}

func init() { hlib.Register("C13", "mono", 4, monos) }
