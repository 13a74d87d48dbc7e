package main

import (
	"github.com/nanobus/iota/go/zverif/hlib"
	"github.com/tetratelabs/wazero"
	"vsim"
	"vsim/nx"
)

// served lists the requests of the guest that the host is certainly still
// serving, or those it may be serving.
func served(w *hlib.W, g *guest, certain bool) (l []*hlib.Inter) {
	for _, i := range w.Inters {
		if i.From != g.gs || i.Invoked == 0 || i.Kind == nx.FNF {
			continue
		}
		if i.One != nil && !i.One.Settled() || i.Out != nil && i.Out.Serving(certain) {
			l = append(l, i)
		}
	}
	return
}

// closing: instances are closed at any time.
func closing() {
	e := newEnv()
	e.w.Wide = "C20"
	e.w.Lossy = true
	e.start(1 + vsim.Choose(2, "guests"))
	p := swarm(hlib.DefaultProfile())
	p.Kinds = []int{nx.RR, nx.FNF, nx.RS, nx.RC}
	p.Hold = []float64{0, 0.3, 0.8}[vsim.Choose(3, "hold")]
	p.None = []float64{0, 0.3, 0.8}[vsim.Choose(3, "none")]
	p.Bad = []float64{0, 0.2}[vsim.Choose(2, "bad")]
	if vsim.Flip(0.3, "noclose.cancel") {
		p.Cancel = 0
	}
	e.drive(e.w, &p, vsim.Choose(14, "calls"))
	type closer struct {
		g        *guest
		returned bool
		serving  []*hlib.Inter
	}
	var closers []*closer
	for _, g := range e.guests {
		g := g
		for k := vsim.Choose(3, "closers"); k > 0; k-- {
			c := &closer{g: g}
			closers = append(closers, c)
			at := int64(vsim.Range(0, 600, "close.at")) * ms
			vsim.GoHarness(func() {
				vsim.SleepNs(at)
				g.gs.Dead = true
				before := served(e.w, g, true)
				vsim.Event("close %s", g.prog)
				_ = g.inst.Close()
				vsim.Event("closed %s", g.prog)
				c.returned = true
				for _, i := range before {
					for _, x := range served(e.w, g, true) {
						if i == x && p.Cancel == 0 {
							hlib.Fail("C20", "close-early", "Close returned although the host is still serving %s", i)
						}
					}
				}
			})
		}
	}
	e.idle()
	// what the guest is still being served holds Close back, nothing else
	for _, c := range closers {
		if n := served(e.w, c.g, false); !c.returned && len(n) == 0 {
			hlib.Fail("C20", "close-hangs", "Close of %s does not return although the host serves nothing for it any more", c.g.prog)
		}
	}
	for k := 0; k < 12 && e.w.Pending(); k++ {
		e.w.Release()
		e.w.Resume()
		e.idle()
	}
	// endless streams of the guest are ended by their producers
	for _, i := range e.w.Inters {
		if i.Out != nil && i.From.Dead {
			i.Out.Finish()
		}
	}
	e.idle()
	for _, c := range closers {
		if n := served(e.w, c.g, false); !c.returned && len(n) > 0 {
			return // held back for good
		} else if !c.returned {
			hlib.Fail("C20", "close-hangs", "Close of %s never returns; the host still serves %v", c.g.prog, n)
		}
	}
	for _, g := range e.guests {
		if !g.gs.Dead {
			g.gs.Dead = true
			done := false
			vsim.GoHarness(func() {
				for _, i := range e.w.Inters {
					if i.Out != nil && i.From.Dead {
						i.Out.Finish()
					}
				}
				_ = g.inst.Close()
				done = true
			})
			e.idle()
			if !done && len(served(e.w, g, false)) > 0 {
				return
			}
			if !done {
				hlib.Fail("C20", "close-hangs", "Close of %s never returns; the host still serves %v", g.prog, served(e.w, g, false))
			}
		}
	}
	for k := vsim.Choose(3, "again"); k > 0; k-- {
		_ = e.pick().inst.Close()
	}
	e.idle()
	e.w.Check()
	// calls made now fail at once
	late := e.w.Fork()
	p.Hold, p.Stall = 0, 0
	var l []*hlib.Inter
	for k := vsim.Choose(4, "latecalls"); k > 0; k-- {
		i := e.plan1(late, &p, e.pick(), false)
		l = append(l, i)
		vsim.GoHarness(func() { late.Start(i) })
	}
	e.idle()
	for _, i := range l {
		if i.Kind == nx.RR && !i.Ended() || i.Out != nil && !i.Out.OverOrIdle() {
			hlib.Fail("C20", "late-call-hangs", "%s was made after the instance had been closed and does not fail", i)
		}
		if i.Invoked > 0 {
			hlib.Fail("C20", "late-call-arrived", "%s was made after the instance had been closed but reached a handler", i)
		}
	}
	late.Check()
	e.w.Check()
	for _, g := range e.guests {
		if !g.mod.Closed() {
			hlib.Fail("C20", "not-released", "%s is closed but its module was not", g.prog)
		}
	}
	if n := vsim.Leaked(); len(n) > 0 {
		hlib.Fail("C20", "not-released", "all instances are closed but %d goroutine(s) are left: %v", len(n), n)
	}
}

// trapping: guests fail.
func trapping() {
	e := newEnv()
	e.w.Wide = "C20"
	e.w.Lossy = true
	e.start(1 + vsim.Choose(2, "guests"))
	victim := e.pick()
	for _, g := range e.guests {
		if g == victim {
			g.gs.Dead = true
		}
	}
	p := swarm(hlib.DefaultProfile())
	p.Kinds = []int{nx.RR, nx.FNF, nx.RS, nx.RC}
	p.Hold = []float64{0, 0.3}[vsim.Choose(2, "hold")]
	p.None = []float64{0, 0.3, 0.8}[vsim.Choose(3, "none")]
	left := 1 + vsim.Choose(12, "trap.at")
	inside := vsim.Flip(0.5, "trap.inside")
	sticky := inside || vsim.Flip(0.5, "trap.sticky")
	dead := false
	hit := func(m *wazero.Module) bool {
		if m != victim.mod {
			return false
		}
		left--
		if left == 0 {
			dead = sticky
			vsim.Count("fault:trap")
			return true
		}
		return false
	}
	wazero.TrapAt = func(m *wazero.Module, fn string) bool {
		if m == victim.mod && dead {
			return true
		}
		return !inside && hit(m)
	}
	if inside {
		wazero.TrapIn = func(m *wazero.Module, fn string) bool { return hit(m) }
	}
	other := e.w.Fork() // the other guest's calls are not affected
	other.Lossy = false
	for _, g := range e.guests {
		w := e.w
		if g != victim {
			w = other
		}
		for n := 1 + vsim.Choose(8, "calls"); n > 0; n-- {
			fromGuest := vsim.Flip(0.4, "driver.side")
			at := int64(vsim.Range(0, 300, "driver.sleep")) * ms
			vsim.GoHarness(func() {
				vsim.SleepNs(at)
				i := e.plan1(w, &p, g, fromGuest)
				if fromGuest {
					g.later(0, func() { w.Start(i) })
				} else {
					w.Start(i)
				}
			})
		}
	}
	e.idle()
	for k := 0; k < 12 && (e.w.Pending() || other.Pending()); k++ {
		for _, w := range []*hlib.W{e.w, other} {
			w.Release()
			w.Resume()
			e.idle()
		}
	}
	other.Check()
	if left <= 0 {
		// host callers of the guest that trapped: all have ended, unless the
		// guest went on and holds its answer back
		if dead {
			e.w.Check()
		}
		for _, g := range e.guests {
			if g == victim {
				done := false
				vsim.GoHarness(func() {
					_ = g.inst.Close()
					done = true
				})
				e.idle()
				if n := served(e.w, g, false); !done && len(n) == 0 {
					hlib.Fail("C20", "close-hangs", "Close of %s, which trapped, never returns", g.prog)
				}
			}
		}
		e.idle()
		if dead {
			e.w.Check()
		}
	}
}

// oversize: messages around the size that fits.
func oversize() {
	e := newEnv()
	e.w.Wide = "C20"
	e.w.Limit = 16384
	e.start(1)
	g := e.guests[0]
	g.hs.MaxMsg, g.gs.MaxMsg = 17000, 17000
	p := swarm(hlib.DefaultProfile())
	p.Kinds = []int{nx.RR, nx.FNF, nx.RS, nx.RC}
	p.MaxData, p.MaxItems = 17000, 4
	p.Big = true
	e.drive(e.w, &p, 1+vsim.Choose(8, "calls"))
	e.idle()
	for k := 0; k < 12 && e.w.Pending(); k++ {
		e.w.Release()
		e.w.Resume()
		e.idle()
	}
	e.w.Check()
	small := e.w.Fork()
	p.MaxData, p.Big, p.Bad = 40, false, 0
	e.drive(small, &p, 1+vsim.Choose(4, "small"))
	e.idle()
	for k := 0; k < 12 && small.Pending(); k++ {
		small.Release()
		small.Resume()
		e.idle()
	}
	small.Check()
	e.w.Check()
}

func init() {
	hlib.Register("C20", "closing", 5, closing)
	hlib.Register("C20", "trapping", 3, trapping)
	hlib.Register("C20", "oversize", 2, oversize)
}
