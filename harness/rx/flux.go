// The rx world runs sequences and flows on their own.
package main

import (
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
)

const (
	ms     = int64(1000000)
	settle = 3600 * 1000 * ms
)

func idle() {
	if !vsim.WaitIdle(settle) {
		hlib.Fail(hlib.Active(), "no-quiescence", "the system is still busy after %d simulated seconds", settle/1000/ms)
	}
}

// when runs f in a goroutine of its own, now or later.
func when(label string, f func()) {
	d := int64(0)
	switch vsim.Choose(4, label+".when") {
	case 0:
		d = int64(1+vsim.Choose(40, label+".ms")) * ms
	case 1:
		d = int64(1+vsim.Choose(3, label+".ms")) * ms
	}
	vsim.GoHarness(func() {
		if d > 0 {
			vsim.SleepNs(d)
		}
		f()
	})
}

// Kinds of fluxes.
const (
	fSync      = iota // emits in the source function
	fDemand           // emits when asked, in the request
	fAsync            // emits in a goroutine
	fProcessor        // a processor driven by a goroutine
	fSlice
	fSliceResp
	fError
)

const level = 100000 // what each map adds to an item

const (
	eNone = iota
	eComplete
	eError
)

type opts struct {
	kinds   []int
	cancels int     // up to
	rivals  int     // up to: goroutines that signal an ending of their own
	maps    int     // up to
	fails   float64 // a map fails
	block   float64
	notify  int
	pages   float64 // consumer asks in pages
	extra   int     // up to: goroutines that request more
	early   float64 // requests before the source is ready
	none    float64 // producer never ends
	max     int     // items
	eager   bool    // producers that ignore the demand are allowed
}

// fluxRun is a flux with everything around it.
type fluxRun struct {
	o      opts
	kind   int
	n      int
	end    int
	maps   int
	failAt int // the map fails on this item (1-based), 0 never
	failL  int // the level that fails
	obey   bool
	pages  bool
	noReq  bool

	f     flux.Flux[int]
	base  flux.Flux[int]
	sink  flux.Sink[int]
	sub   rx.Subscription
	ready bool

	// producing
	busy     bool
	quota    int
	asked    int
	began    int // Next calls begun
	late     map[int]bool
	ended    bool // the producer has signalled its end
	endCall  int  // ending calls begun: by the producer, rivals or cancellation
	over     bool // one of them has returned
	told     int  // cancellations of the source
	hasSub   bool // the source announced its subscription
	wake     func()
	errs     map[string]bool
	failed   bool // the transform was made to fail
	rivalled bool
	decided  string // the ending that was the only one until its call had returned

	// consuming
	subscribed bool
	returned   bool // Subscribe or Block has returned
	granted    int
	pageCalls  int
	noPage     bool
	got        int
	last       int
	completed  int
	errored    int
	errText    string
	fin        int
	sig        rx.SignalType
	cancels    int
	cancelRet  bool
	cancelWon  bool
	after      int
	notes      []*note
	blocked    bool
	blockErr   error
	manual     bool // others than the page callback request
}

type note struct {
	n   int
	sig rx.SignalType
	at  string
}

func fail(class, format string, a ...any) {
	hlib.Fail(hlib.Active(), class, format, a...)
}

func newFlux(o opts) *fluxRun {
	r := &fluxRun{o: o, late: map[int]bool{}, errs: map[string]bool{}}
	r.kind = o.kinds[vsim.Choose(len(o.kinds), "kind")]
	r.n = vsim.Choose(o.max+1, "items")
	if vsim.Flip(0.003, "items.many") {
		r.n = vsim.Choose([]int{50, 300, 2000}[vsim.Choose(3, "items.scale")], "items")
	}
	r.end = 1 + vsim.Choose(2, "end")
	if vsim.Flip(o.none, "endless") {
		r.end = eNone
	}
	if r.kind == fSlice || r.kind == fSliceResp {
		r.end = eComplete
	}
	r.obey = !o.eager || vsim.Flip(0.6, "obey")
	r.maps = vsim.Choose(o.maps+1, "maps")
	if r.maps > 0 && r.n > 0 && vsim.Flip(o.fails, "map.fails") {
		r.failAt = 1 + vsim.Choose(r.n, "map.failat")
		r.failL = 1 + vsim.Choose(r.maps, "map.level")
	}
	r.errs["producer"] = true
	r.build()
	return r
}

func (r *fluxRun) String() string {
	names := []string{"synchronous flux", "on-demand flux", "asynchronous flux", "processor", "slice", "slice response", "error flux"}
	s := fmt.Sprintf("%s of %d", names[r.kind], r.n)
	if r.maps > 0 {
		s += fmt.Sprintf(" mapped %d times", r.maps)
	}
	return s
}

func (r *fluxRun) build() {
	switch r.kind {
	case fSync:
		r.f = flux.Create(func(k flux.Sink[int]) {
			r.sink = k
			r.announce()
			r.emit(r.n)
			r.finish()
		})
	case fDemand:
		r.f = flux.Create(func(k flux.Sink[int]) {
			r.sink = k
			if vsim.Flip(r.o.early, "source.late") {
				when("source", r.announce)
			} else {
				r.announce()
			}
		})
	case fAsync:
		r.f = flux.Create(func(k flux.Sink[int]) {
			r.sink = k
			if !vsim.Flip(r.o.early, "source.late") {
				r.announce()
				when("produce", r.produce)
				return
			}
			when("source", func() {
				r.announce()
				r.produce()
			})
		})
	case fProcessor:
		p := flux.NewProcessor[int]()
		r.f = p
		r.sink = p
		when("produce", func() {
			r.announce()
			r.produce()
		})
	case fSlice:
		var l []int
		for k := 1; k <= r.n; k++ {
			l = append(l, k)
		}
		r.f = flux.FromSlice(l)
	case fSliceResp:
		var l []int
		for k := 1; k <= r.n; k++ {
			l = append(l, k)
		}
		r.f = flux.Create(func(k flux.Sink[int]) {
			r.sink = k
			ask := flux.SliceResponse(k, l)
			k.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
				r.ask(n)
				ask(n)
			}, Cancel: r.cancelled})
		})
	case fError:
		r.f = flux.Error[int](errors.New("producer"))
		r.ended, r.endCall = true, 1
	}
	r.base = r.f
	for k := 1; k <= r.maps; k++ {
		r.f = flux.Map(r.f, func(v int) (int, error) {
			if k == r.failL && v%level == r.failAt {
				r.failed = true
				r.endCall++
				r.errs["transform"] = true
				return 0, errors.New("transform")
			}
			return v + level, nil
		})
	}
}

// announce gives the sequence the producer's subscription.
func (r *fluxRun) announce() {
	r.hasSub = true
	vsim.Event("source ready")
	r.sink.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
		r.ask(n)
		r.quota += n
		if r.kind == fDemand {
			r.demand()
		} else if r.wake != nil {
			w := r.wake
			r.wake = nil
			w()
		}
	}, Cancel: r.cancelled})
}

func (r *fluxRun) ask(n int) {
	vsim.Event("asked %d", n)
	r.asked += n
	if n <= 0 {
		fail("demand-invented", "%s: the source was asked for %d items", r, n)
	}
	if r.asked > r.granted {
		fail("demand-invented", "%s: the source was asked for %d items, the subscriber for %d", r, r.asked, r.granted)
	}
}

func (r *fluxRun) cancelled() {
	r.told++
	vsim.Event("source cancelled")
	if r.told > 1 {
		fail("cancelled-twice", "%s: the source was told to cancel %d times", r, r.told)
	}
	if r.cancels == 0 && !r.failed {
		fail("cancel-invented", "%s: the source was told to cancel but nobody cancelled", r)
	}
	if w := r.wake; w != nil {
		r.wake = nil
		w()
	}
}

func (r *fluxRun) next() {
	r.began++
	k := r.began
	r.late[k] = r.over
	vsim.Event("next %d", k)
	r.sink.Next(k)
}

func (r *fluxRun) emit(n int) {
	for ; n > 0 && r.began < r.n; n-- {
		r.next()
	}
}

func (r *fluxRun) demand() {
	if r.busy {
		return
	}
	r.busy = true
	for r.began < r.n && r.quota > 0 && r.told == 0 {
		r.quota--
		r.next()
	}
	if r.began == r.n && !r.ended && r.told == 0 && r.quota > 0 {
		r.finish()
	}
	r.busy = false
}

func (r *fluxRun) produce() {
	for r.began < r.n {
		for r.obey && r.quota == 0 && r.told == 0 && !r.over {
			c := make(chan struct{}, 1)
			vc := vsim.Make[chan struct{}](1)
			_ = c
			r.wake = func() { vsim.TrySend(vc, struct{}{}) }
			vsim.Recv(vc)
		}
		if r.told > 0 && vsim.Flip(0.7, "produce.stop") {
			return
		}
		r.quota--
		r.next()
		if vsim.Flip(0.15, "produce.pause") {
			vsim.SleepNs(int64(vsim.Choose(20, "produce.ms")) * ms)
		}
	}
	r.finish()
}

func (r *fluxRun) finish() {
	if r.end == eNone || r.ended {
		return
	}
	r.ended = true
	if r.end == eComplete {
		r.ending("completion", r.sink.Complete)
	} else {
		r.ending("producer", func() { r.sink.Error(errors.New("producer")) })
	}
}

// ending signals an ending.
func (r *fluxRun) ending(name string, call func()) {
	r.endCall++
	alone := r.endCall == 1
	vsim.Event("ending %s", name)
	call()
	r.over = true
	if alone && r.endCall == 1 && r.fin <= 1 {
		r.decided = name
	}
}

// ---------------------------------------------------------------- consuming

func (r *fluxRun) grant(s rx.Subscription, n int) {
	r.granted += n
	vsim.Event("grant %d", n)
	s.Request(n)
}

// amount draws how many items are asked for.
func (r *fluxRun) amount(most int, label string) int {
	if !r.pages && vsim.Flip(0.03, label+".large") {
		return []int{255, 256, 65536, 1<<31 - 1}[vsim.Choose(4, label)]
	}
	return 1 + vsim.Choose(most, label)
}

func (r *fluxRun) callbacks() flux.Subscribe[int] {
	c := flux.Subscribe[int]{
		OnNext: r.onNext,
		OnComplete: func() {
			vsim.Event("complete")
			r.completed++
			r.terminal()
			if r.end != eComplete && !r.rivalled && r.kind != fSlice && r.kind != fSliceResp {
				fail("end-invented", "%s: completed although nobody completed it", r)
			}
			if r.kind == fSlice || r.kind == fSliceResp {
				r.endCall++
				r.over = true
				r.ended = true
			}
			if r.endCall == 0 {
				fail("end-early", "%s: completed before anybody signalled", r)
			}
		},
		OnError: func(err error) {
			vsim.Event("error %v", err)
			r.errored++
			r.terminal()
			r.errText = err.Error()
			if !r.errs[r.errText] {
				fail("error-invented", "%s: failed with %q that nobody signalled", r, r.errText)
			}
			if r.endCall == 0 {
				fail("end-early", "%s: failed before anybody signalled", r)
			}
		},
		Finally: func(sig rx.SignalType) {
			vsim.Event("finally %v", sig)
			r.fin++
			r.sig = sig
			want := rx.SignalCancel
			if r.completed > 0 {
				want = rx.SignalComplete
			} else if r.errored > 0 {
				want = rx.SignalError
			}
			if r.fin > 1 {
				fail("final-twice", "%s: the final callback ran %d times", r, r.fin)
			}
			if sig != want {
				fail("wrong-final", "%s: final signal %v after %d completions and %d errors", r, sig, r.completed, r.errored)
			}
			if sig == rx.SignalCancel && r.cancels == 0 {
				fail("cancel-invented", "%s: ended as cancelled but nobody cancelled", r)
			}
		},
	}
	r.noReq = vsim.Flip(0.2, "norequest")
	r.pages = !r.noReq && vsim.Flip(r.o.pages, "pages")
	switch {
	case r.noReq:
		c.NoRequest = true
		r.manual = true
	case r.pages:
		c.OnRequest = func(s rx.Subscription) {
			r.sub = s
			r.pageCalls++
			vsim.Event("page %d", r.pageCalls)
			if !r.manual && r.pageCalls > 1 && r.got < r.granted {
				fail("page-early", "%s: asked for the next page after %d of %d items", r, r.got, r.granted)
			}
			if vsim.Flip(0.1, "page.none") {
				r.noPage = true
				when("page", func() {
					r.noPage = false
					r.grant(s, 1+vsim.Choose(3, "page.size"))
				})
				return
			}
			r.grant(s, 1+vsim.Choose(4, "page.size"))
		}
	default:
		r.granted += rx.RequestMax
	}
	// some of the callbacks are not set
	if vsim.Flip(0.1, "nocallback") {
		switch vsim.Choose(2, "nocallback.which") {
		case 0:
			c.OnComplete = func() { r.completed++; r.endCall++; r.over = true; r.ended = true }
		}
	}
	return c
}

func (r *fluxRun) terminal() {
	if r.completed+r.errored > 1 {
		fail("end-twice", "%s: %d endings", r, r.completed+r.errored)
	}
	if r.fin > 0 {
		fail("end-late", "%s: an ending after the final callback", r)
	}
}

func (r *fluxRun) onNext(v int) {
	k := v % level
	vsim.Event("item %d", k)
	r.got++
	if v/level != r.maps {
		fail("not-mapped", "%s: item %d went through %d maps", r, k, v/level)
	}
	if k <= r.last {
		fail("order", "%s: item %d after item %d", r, k, r.last)
	} else if k != r.last+1 && r.kind != fProcessor {
		fail("items-lost", "%s: item %d after item %d", r, k, r.last)
	}
	r.last = k
	if r.late[k] {
		fail("item-after-end", "%s: item %d was signalled after the end but delivered", r, k)
	}
	if r.failed {
		fail("item-after-end", "%s: item %d delivered although the transform failed on %d", r, k, r.failAt)
	}
	if r.cancelRet {
		r.after++
		if r.after > 1 {
			fail("item-after-end", "%s: %d items delivered after the cancellation", r, r.after)
		}
	}
	if (r.completed > 0 || r.errored > 0) && !r.rivalled {
		fail("item-after-end", "%s: item %d delivered after the ending", r, k)
	}
	if r.obey && (r.kind == fDemand || r.kind == fAsync || r.kind == fProcessor || r.kind == fSlice || r.kind == fSliceResp) && r.got > r.granted {
		fail("flooded", "%s: %d items delivered, %d requested", r, r.got, r.granted)
	}
	if r.noReq && r.sub != nil && vsim.Flip(0.5, "onnext.request") {
		r.grant(r.sub, 1)
	}
	if r.sub != nil && r.o.cancels > 0 && vsim.Flip(0.05, "onnext.cancel") {
		r.cancel(r.sub)
	}
}

func (r *fluxRun) cancel(s rx.Subscription) {
	r.cancels++
	r.ending("cancel", s.Cancel)
	r.cancelRet = true
}

func (r *fluxRun) note(at string) {
	n := &note{at: at}
	r.notes = append(r.notes, n)
	vsim.Event("notify %s", at)
	r.f.Notify(func(sig rx.SignalType) {
		n.n++
		n.sig = sig
		vsim.Event("notified %s %v", n.at, sig)
		if n.n > 1 {
			fail("notified-twice", "%s: the completion callback registered %s ran %d times", r, n.at, n.n)
		}
		if r.endCall == 0 {
			fail("notified-early", "%s: the completion callback registered %s ran before any end", r, n.at)
		}
	})
}

// live gives others the subscription once there is one.
func (r *fluxRun) live(f func(s rx.Subscription)) {
	if !r.subscribed {
		return
	}
	if s := r.f.Subscription(); s != nil {
		f(s)
	}
}

func (r *fluxRun) run() {
	c := r.callbacks()
	notes := vsim.Choose(r.o.notify+1, "notes")
	if r.o.notify > 0 && vsim.Flip(0.005, "notes.many") {
		notes = 5 + vsim.Choose(60, "notes")
	}
	for k := notes; k > 0; k-- {
		if vsim.Flip(0.4, "note.first") {
			r.note("first")
		} else {
			when("note", func() { r.note("at any time") })
		}
	}
	subscribing := func() {
		block := vsim.Flip(r.o.block, "block")
		if block {
			r.blocked = true
			r.subscribed = true
			err := r.f.Block(c)
			r.returned, r.blockErr = true, err
			vsim.Event("block returned %v", err)
			if r.kind == fError {
				return
			}
			if r.fin != 1 {
				fail("block-early", "%s: Block returned before the sequence ended", r)
			}
			if (err != nil) != (r.errored > 0) || err != nil && err.Error() != r.errText {
				fail("block-result", "%s: Block returned %v, the sequence ended with %q", r, err, r.errText)
			}
			return
		}
		// the others wait for the subscription to exist
		r.f.Subscribe(c)
		r.subscribed = true
		r.returned = true
		if r.kind != fError {
			r.sub = r.f.Subscription()
		}
		if r.noReq && r.sub != nil {
			for vsim.Flip(0.7, "norequest.more") {
				r.grant(r.sub, r.amount(5, "norequest.n"))
			}
		}
	}
	when("subscribe", subscribing)
	if r.kind != fError {
		for k := vsim.Choose(r.o.extra+1, "extras"); k > 0; k-- {
			r.manual = true
			when("extra", func() {
				if r.subscribed && !r.blocked {
					r.grant(r.f.Subscription(), r.amount(4, "extra.n"))
				}
			})
		}
		for k := vsim.Choose(r.o.cancels+1, "cancels"); k > 0; k-- {
			when("cancel", func() {
				if r.sub != nil {
					r.cancel(r.sub)
				}
			})
		}
		if r.sink != nil || r.kind == fSync || r.kind == fDemand || r.kind == fAsync {
			for k := vsim.Choose(r.o.rivals+1, "rivals"); k > 0; k-- {
				name := fmt.Sprintf("rival%d", k)
				r.rivalled = true
				when("rival", func() {
					if r.sink == nil {
						return
					}
					if vsim.Flip(0.5, "rival.error") {
						r.errs[name] = true
						r.ending(name, func() { r.sink.Error(errors.New(name)) })
					} else {
						r.ending("completion", r.sink.Complete)
					}
				})
			}
		}
	}
	idle()
	r.judge()
	if r.fin > 0 && r.kind != fError {
		if vsim.Flip(0.5, "note.last") {
			r.note("last")
		}
		if r.maps == 0 && vsim.Flip(0.2, "block.last") {
			done := false
			vsim.GoHarness(func() {
				if err := r.f.Block(flux.Subscribe[int]{}); (err != nil) != (r.errored > 0) || err != nil && err.Error() != r.errText {
					fail("block-result", "%s: Block after the end returned %v, the sequence ended with %q", r, err, r.errText)
				}
				done = true
			})
			idle()
			if !done {
				fail("block-hangs", "%s: Block after the end does not return", r)
			}
		}
		if r.sub != nil {
			r.cancel(r.sub)
		}
		idle()
		r.judge()
	}
}

func (r *fluxRun) judge() {
	if !r.subscribed {
		return
	}
	if r.endCall > 0 && r.fin == 0 {
		fail("no-ending", "%s: it has ended but the final callback did not run", r)
	}
	if r.fin > 0 && r.endCall == 0 {
		fail("end-invented", "%s: it ended although nobody ended it", r)
	}
	if r.decided != "" && r.fin > 0 && r.kind != fSlice && r.kind != fSliceResp {
		res := r.errText
		if r.completed > 0 {
			res = "completion"
		} else if r.sig == rx.SignalCancel {
			res = "cancel"
		}
		if res != r.decided {
			fail("wrong-ending", "%s: %s ended it before anything else was signalled, but it ended with %s", r, r.decided, res)
		}
	}
	for _, n := range r.notes {
		if r.fin > 0 && n.n != 1 {
			fail("not-notified", "%s: the completion callback registered %s ran %d times", r, n.at, n.n)
		}
		if r.fin > 0 && n.sig != r.sig {
			fail("wrong-notice", "%s: the completion callback registered %s got %v, the final one %v", r, n.at, n.sig, r.sig)
		}
	}
	if r.blocked && r.fin > 0 && !r.returned {
		fail("block-hangs", "%s: ended but Block does not return", r)
	}
	if r.kind == fError {
		return
	}
	slice := r.kind == fSlice || r.kind == fSliceResp
	if r.fin == 0 {
		if r.hasSub && r.asked != r.granted {
			fail("demand-lost", "%s: the subscriber asked for %d items but the source was asked for %d", r, r.granted, r.asked)
		}
		if slice {
			if want := min(r.granted, r.n); r.got != want {
				fail("demand-lost", "%s: %d items requested but %d of %d delivered", r, r.granted, r.got, r.n)
			}
			if r.granted >= r.n && r.granted > 0 {
				fail("no-ending", "%s: %d items requested and delivered but it never ended", r, r.granted)
			}
		} else if r.kind != fProcessor && r.got != r.began {
			fail("items-lost", "%s: %d items signalled, %d delivered", r, r.began, r.got)
		}
		if r.obey && r.kind != fSync && r.pages && !r.manual && !r.noPage && r.got == r.granted {
			fail("page-missing", "%s: %d items requested and delivered but no further page was asked for", r, r.granted)
		}
	}
	if r.fin > 0 && r.completed > 0 && !r.rivalled && r.kind != fProcessor && r.got != r.n {
		fail("items-lost", "%s: completed after %d of %d items", r, r.got, r.n)
	}
	if r.fin > 0 && r.sig == rx.SignalCancel && r.hasSub && r.told != 1 {
		fail("cancel-lost", "%s: cancelled but the source was told %d times", r, r.told)
	}
	if r.told > 0 && r.sig != rx.SignalCancel && !r.failed {
		fail("cancel-invented", "%s: ended with %v but the source was told to cancel", r, r.sig)
	}
	if r.failed && r.hasSub && r.errText == "transform" && r.told != 1 {
		fail("cancel-lost", "%s: the transform failed but the source was told to cancel %d times", r, r.told)
	}
}

func fluxes(o opts) func() {
	return func() {
		for k := 1 + vsim.Choose(2, "sequences"); k > 0; k-- {
			newFlux(o).run()
		}
	}
}

var allKinds = []int{fSync, fDemand, fAsync, fAsync, fProcessor, fProcessor, fSlice, fSliceResp, fError}

func init() {
	hlib.Register("C13", "flux", 4, fluxes(opts{kinds: allKinds, cancels: 2, maps: 2, fails: 0.3, block: 0.2, notify: 4, pages: 0.3, early: 0.3, none: 0.2, max: 8, eager: true}))
	hlib.Register("C13", "flux-rivals", 4, fluxes(opts{kinds: []int{fDemand, fAsync, fProcessor}, cancels: 2, rivals: 3, maps: 2, fails: 0.2, block: 0.2, notify: 4, pages: 0.2, early: 0.3, none: 0.3, max: 8, eager: true}))
	hlib.Register("C13", "flux-notify", 2, fluxes(opts{kinds: []int{fDemand, fAsync, fProcessor, fSlice}, rivals: 1, cancels: 1, maps: 1, notify: 10, max: 3, eager: true}))
	hlib.Register("C14", "requests", 4, fluxes(opts{kinds: []int{fDemand, fAsync, fSlice, fSliceResp, fProcessor}, extra: 5, maps: 1, pages: 0.3, early: 0.6, none: 0.3, max: 12}))
	hlib.Register("C14", "pages", 4, fluxes(opts{kinds: []int{fDemand, fAsync, fSlice, fSliceResp}, maps: 1, pages: 1, early: 0.4, none: 0.2, max: 14}))
	hlib.Register("C14", "cancels", 3, fluxes(opts{kinds: []int{fDemand, fAsync, fSliceResp, fProcessor}, cancels: 3, extra: 2, maps: 2, fails: 0.2, pages: 0.3, early: 0.6, none: 0.4, max: 10}))
}

func main() { hlib.Main("rx") }
