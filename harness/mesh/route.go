package main

import (
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
	context "vsim/scontext"
)

func swarm(p hlib.Profile) hlib.Profile {
	off := func(x *float64, label string) {
		switch vsim.Choose(4, "swarm."+label) {
		case 0:
		case 1:
			*x = 0
		case 2:
			*x = min(0.9, *x*3)
		}
	}
	off(&p.Cancel, "cancel")
	off(&p.Err, "err")
	off(&p.Stall, "stall")
	off(&p.Demand, "demand")
	off(&p.Eager, "eager")
	off(&p.Nested, "nested")
	off(&p.None, "none")
	p.MaxItems = 6
	p.Hold = []float64{0, 0, 0.3}[vsim.Choose(3, "hold")]
	if vsim.Flip(0.1, "swarm.big") {
		p.MaxData = 16000
		p.MaxItems = 4
	}
	return p
}

// routing: modules are loaded, called and loaded again.
func routing(first, again int, atOnce bool) func() {
	return func() {
		e := newEnv()
		e.plan(1 + vsim.Choose(min(first, 4), "modules"))
		p := swarm(hlib.DefaultProfile())
		p.Kinds = []int{nx.RR, nx.FNF, nx.RS, nx.RC}
		order := append([]*module(nil), e.mods...)
		for i := len(order) - 1; i > 0; i-- {
			j := vsim.Choose(i+1, "load.order")
			order[i], order[j] = order[j], order[i]
		}
		loads := func() {
			if vsim.Flip(0.2, "load.all") {
				e.loadAll(order)
				return
			}
			for _, m := range order {
				if vsim.Flip(0.3, "load.pause") {
					vsim.SleepNs(int64(vsim.Range(0, 300, "load.sleep")) * ms)
				}
				e.load(m)
			}
		}
		reloads := func() {
			for k := vsim.Choose(again+1, "reloads"); k > 0; k-- {
				vsim.SleepNs(int64(vsim.Range(0, []int{100, 1000, 8000}[vsim.Choose(3, "reload.scale")], "reload.sleep")) * ms)
				e.load(e.mods[vsim.Choose(len(e.mods), "reload.which")])
			}
		}
		if vsim.Flip(0.5, "calls.early") {
			e.drive(&p, 1+vsim.Choose(8, "calls"))
		}
		switch {
		case atOnce:
			for _, m := range order {
				vsim.GoHarness(func() { e.load(m) })
			}
			for k := 1 + vsim.Choose(2, "reloaders"); k > 0; k-- {
				vsim.GoHarness(reloads)
			}
		default:
			loads()
			vsim.GoHarness(reloads)
		}
		e.drive(&p, 1+vsim.Choose(14, "calls"))
		if vsim.Flip(0.2, "close.busy") {
			p.None = 0
			e.close(&p)
			return
		}
		e.finish()
		e.again(&p)
		if vsim.Flip(0.3, "close.idle") {
			e.close(&p)
		}
	}
}

// served lists the calls of modules that may still be served.
func (e *env) served() (l []*hlib.Inter) {
	for _, w := range []*hlib.W{e.w, e.loose} {
		for _, i := range w.Inters {
			if i.From.Host || i.Invoked == 0 || i.Kind == nx.FNF {
				continue
			}
			if i.One != nil && !i.One.Settled() || i.Out != nil && i.Out.Serving(false) {
				l = append(l, i)
			}
		}
	}
	return
}

// close closes the mesh and then calls everything once more.
func (e *env) close(p *hlib.Profile) {
	returned, closers := 0, 1+vsim.Choose(2, "closers")
	at := int64(vsim.Choose([]int{1, 1000, 8000}[vsim.Choose(3, "close.scale")], "close.at")) * ms
	for k := closers; k > 0; k-- {
		vsim.GoHarness(func() {
			vsim.SleepNs(at)
			for e.loading > 0 {
				vsim.SleepNs(100 * ms)
			}
			e.closing = true
			vsim.Event("close the mesh")
			e.m.Close()
			vsim.Event("closed the mesh")
			returned++
		})
	}
	e.finish()
	// what modules are still being served holds Close back
	for _, i := range e.served() {
		if i.Out != nil {
			i.Out.Finish()
		}
	}
	e.idle()
	if returned < closers && len(e.served()) > 0 {
		return
	}
	if returned < closers {
		fail("close-hangs", "the mesh does not close although all calls have ended")
	}
	for _, m := range e.mods {
		for _, g := range m.gens {
			if g.done > 0 && !g.failed && !g.closed() {
				fail("not-closed", "the mesh is closed but %s is not", g.name)
			}
		}
	}
	if n := vsim.NumG() - e.base; n > 0 {
		fail("goroutines-left", "%d goroutines are left after the mesh was closed", n)
	}
	late := e.loose.Fork()
	q := *p
	q.Hold, q.None, q.Stall, q.Cancel, q.MaxData = 0, 0, 0, 0, 40
	for _, op := range e.ops {
		if vsim.Flip(0.5, "late") {
			vsim.GoHarness(func() { late.Start(late.New(&q, op.Kind, e.outside(op), nowhere, op)) })
		}
	}
	e.idle()
	if i, why := late.Hung(); i != nil {
		fail("late-call-hangs", "%s was made after the mesh had been closed, but %s", i, why)
	}
}

// again calls everything once more after all has calmed down.
func (e *env) again(p *hlib.Profile) {
	q := *p
	q.Hold, q.None, q.Stall, q.Cancel, q.MaxData = 0, 0, 0, 0, 40
	for _, op := range e.ops {
		if e.certain(op, nil) {
			vsim.GoHarness(func() {
				i := e.newCall(&q, op, nil)
				i.W().Start(i)
			})
		}
	}
	for _, m := range e.mods {
		for _, g := range m.gens {
			if g.done == 0 || g.failed || g.gone() {
				continue
			}
			for _, op := range e.ops {
				if _, ok := g.imports[op]; ok {
					g.later(0, func() {
						i := e.newCall(&q, op, g)
						i.W().Start(i)
					})
				}
			}
		}
	}
	e.finish()
}

// unknown: calls that name nothing are harmless.
func unknown() {
	e := newEnv()
	e.plan(1 + vsim.Choose(3, "modules"))
	ctx := context.Background()
	vsim.GoHarness(func() {
		for k := 1 + vsim.Choose(4, "unknown"); k > 0; k-- {
			ns, op := "no", "such"
			if vsim.Flip(0.5, "unknown.ns") {
				x := e.ops[vsim.Choose(len(e.ops), "op")]
				ns, op = x.NS, "such"
				if vsim.Flip(0.3, "unknown.op") {
					ns, op = "no", x.Name
				}
			}
			switch vsim.Choose(4, "kind") {
			case 0:
				if m := e.m.RequestResponse(ctx, ns, op, payloadOf("x")); m != nil {
					m.Async()
				}
			case 1:
				e.m.FireAndForget(ctx, ns, op, payloadOf("x"))
			case 2:
				if m := e.m.RequestStream(ctx, ns, op, payloadOf("x")); m != nil {
					m.Async()
				}
			case 3:
				if m := e.m.RequestChannel(ctx, ns, op, payloadOf("x"), nil); m != nil {
					m.Async()
				}
			}
			vsim.SleepNs(int64(vsim.Range(0, 100, "unknown.sleep")) * ms)
		}
	})
	for _, m := range e.mods {
		e.load(m)
	}
	p := swarm(hlib.DefaultProfile())
	e.drive(&p, 1+vsim.Choose(8, "calls"))
	e.finish()
	e.again(&p)
}

func init() {
	hlib.Register("C21", "routing", 6, routing(4, 4, false))
	hlib.Register("C21", "reloading", 4, routing(2, 5, false))
	hlib.Register("C21", "at-once", 3, routing(3, 4, true))
	hlib.Register("C21", "unknown", 1, unknown)
}
