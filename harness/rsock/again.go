package main

import (
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
)

// drop ends the connection of q, but neither its handler nor the server.
func (e *env) drop(q *peer) {
	how := vsim.Choose(6, "drop")
	vsim.Event("drop %s %d", q.name, how)
	switch how {
	case 0:
		q.cconn.Reset()
	case 1:
		q.sconn.HalfEOF()
	case 2:
		q.cconn.HalfEOF()
	case 3:
		if q.t != nil {
			_ = q.t.Close()
		} else {
			_ = q.cconn.Close()
		}
	case 4:
		q.stop()
	case 5:
		_ = q.sconn.Close()
	}
}

// starting drives calls of q over its present connection. Those that start too
// late go over the next one, if at all.
func (e *env) starting(p *hlib.Profile, q *peer, n int) {
	for n > 0 {
		k := 1 + vsim.Choose(min(n, 4), "driver.calls")
		n -= k
		fromServer := vsim.Flip(0.5, "driver.side")
		pause := vsim.Flip(0.3, "driver.pause")
		var l []*hlib.Inter
		for ; k > 0; k-- {
			l = append(l, e.plan(q.w, p, q, fromServer))
		}
		w := q.w
		vsim.GoHarness(func() {
			for _, i := range l {
				if pause {
					vsim.SleepNs(int64(vsim.Range(0, 100, "driver.sleep")) * ms)
				}
				w.Start(i)
			}
		})
	}
}

// restart puts a new server in the place of the old one.
func (e *env) restart() {
	if vsim.Flip(0.5, "restart.close") {
		_ = e.srv.Close()
	} else {
		e.cancel()
	}
	e.idle()
	if !e.returned {
		hlib.Fail("C10", "listen-stuck", "the server was closed but Listen has not returned")
	}
	e.returned = false
	e.serve()
}

// reconnect connects the handler of q once more.
func (e *env) reconnect(p *hlib.Profile, q *peer) {
	before := len(e.accepted)
	if vsim.Flip(0.4, "hasty") {
		// calls that do not wait until the connection is there
		w := e.w.Fork()
		w.Lossy, w.Maybe = true, true
		e.hist = append(e.hist, w)
		for k := 1 + vsim.Choose(3, "hasty.calls"); k > 0; k-- {
			kind := p.Kinds[vsim.Choose(len(p.Kinds), "kind")]
			i := w.New(p, kind, q.cs, q.ss, e.op(kind))
			at := int64(vsim.Range(0, 30, "hasty.at")) * ms
			vsim.GoHarness(func() {
				vsim.SleepNs(at)
				w.Start(i)
			})
		}
	}
	if err := q.setup(true); err != nil {
		hlib.Fail("C29", "can-not-reconnect", "%s can not connect again: %v", q.name, err)
	}
	if !e.await(before) {
		hlib.Fail("C29", "never-accepted", "%s was never accepted after it had connected again (client ended: %v, %v)", q.name, q.done, q.err)
	}
	e.sides(q, e.accepted[before])
	q.w = e.w.Fork()
	e.hist = append(e.hist, q.w)
}

// again: handlers that lose their connection and are connected again.
func again(shape func(p *hlib.Profile)) func() {
	return func() {
		e := newEnv()
		e.w.Wide = "C29"
		e.export(3)
		healthyNet()
		e.serve()
		for k := 1 + vsim.Choose(2, "clients"); k > 0; k-- {
			e.connect(true)
		}
		for _, q := range e.peers {
			if vsim.Flip(0.3, "burn") {
				hlib.Burn(q.cs, q.ss)
			}
			q.w = e.w.Fork()
			e.hist = append(e.hist, q.w)
		}
		p := swarm(hlib.DefaultProfile())
		p.Hold = []float64{0, 0.4, 0.9}[vsim.Choose(3, "hold")]
		p.None = []float64{0.05, 0.4}[vsim.Choose(2, "none")]
		shape(&p)
		for r := 1 + vsim.Choose(3, "rounds"); r > 0; r-- {
			for _, q := range e.peers {
				e.starting(&p, q, vsim.Choose(7, "calls"))
			}
			switch vsim.Choose(3, "settle") {
			case 0:
				e.idle()
			case 1:
				vsim.SleepNs(int64(vsim.Range(0, 400, "lose.after")) * ms)
			}
			victims := e.peers
			restart := vsim.Flip(0.25, "restart")
			if !restart {
				victims = nil
				for _, q := range e.peers {
					if len(victims) == 0 || vsim.Flip(0.5, "victim") {
						victims = append(victims, q)
					}
				}
			}
			for _, q := range victims {
				q.w.Lossy, q.w.Maybe = true, true
			}
			if restart {
				e.restart()
			} else {
				for _, q := range victims {
					e.drop(q)
				}
			}
			for _, q := range victims {
				for k := 0; !q.done && k < 500; k++ {
					vsim.SleepNs(10 * ms)
				}
				if !q.done {
					e.idle()
				}
				if !q.done {
					hlib.Fail("C09", "connection-alive", "%s did not notice the end of its connection", q.name)
				}
			}
			if vsim.Flip(0.4, "pause") {
				vsim.SleepNs(int64(vsim.Range(0, 2000, "reconnect.after")) * ms)
			}
			for _, q := range victims {
				old := q.w
				e.reconnect(&p, q)
				if vsim.Flip(0.7, "late") {
					vsim.GoHarness(func() {
						vsim.SleepNs(int64(vsim.Range(0, 600, "late.after")) * ms)
						old.Release()
						if vsim.Flip(0.5, "late.resume") {
							old.Resume()
						}
					})
				}
			}
		}
		for _, q := range e.peers {
			e.starting(&p, q, 1+vsim.Choose(7, "calls"))
		}
		e.idle()
		pending := func() bool {
			for _, w := range e.hist {
				if w.Pending() {
					return true
				}
			}
			return false
		}
		for k := 0; k < 12 && pending(); k++ {
			for _, w := range e.hist {
				w.Release()
				w.Resume()
			}
			e.idle()
		}
		for _, w := range e.hist {
			w.Check()
		}
	}
}

// forever: what is left of lost connections in a handler that goes on.
func forever() {
	e := newEnv()
	e.w.Wide = "C29"
	e.export(2)
	healthyNet()
	e.serve()
	q := e.connect(true)
	p := swarm(hlib.DefaultProfile())
	p.MaxData, p.MaxItems = 40, 6
	p.None, p.Hold = 0.3, []float64{0, 0.3}[vsim.Choose(2, "hold")]
	var sizes, gs []int
	calls := vsim.Choose(8, "calls")
	restarts := vsim.Flip(0.2, "restarts")
	lose := vsim.Flip(0.5, "busy")
	for r := 0; r < 6; r++ {
		q.w = e.w.Fork()
		w := q.w
		e.starting(&p, q, calls)
		if !lose {
			e.idle()
		}
		w.Lossy, w.Maybe = true, true
		if restarts {
			e.restart()
		} else {
			e.drop(q)
		}
		e.idle()
		for k := 0; k < 12 && w.Pending(); k++ {
			w.Release()
			w.Resume()
			e.idle()
		}
		if !q.done {
			hlib.Fail("C09", "connection-alive", "%s did not notice the end of its connection", q.name)
		}
		w.Maybe = false
		w.Check()
		gs = append(gs, vsim.NumG())
		q.w, q.cs, q.ss, q.cc, q.sc, q.t = nil, nil, nil, nil, nil, nil
		e.accepted = nil
		sizes = append(sizes, hlib.DeepSize(append([]any{e.srv, q.h}, vsim.Globals...)...))
		before := len(e.accepted)
		if err := q.setup(true); err != nil {
			hlib.Fail("C29", "can-not-reconnect", "%s can not connect again: %v", q.name, err)
		}
		if !e.await(before) {
			hlib.Fail("C29", "never-accepted", "%s was never accepted after it had connected again", q.name)
		}
		e.sides(q, e.accepted[before])
	}
	for _, x := range []struct {
		what string
		l    []int
	}{{"goroutines", gs}, {"memory", sizes}} {
		grown := 0
		for i := 1; i < len(x.l); i++ {
			if x.l[i] > x.l[i-1] {
				grown++
			}
		}
		if grown == len(x.l)-1 {
			hlib.Fail("C29", "growing", "%s grow with every connection that was lost: %v", x.what, x.l)
		}
	}
}

func init() {
	hlib.Register("C29", "reconnect", 4, again(func(p *hlib.Profile) {}))
	hlib.Register("C29", "late-answers", 3, again(func(p *hlib.Profile) {
		p.Kinds = []int{nx.RR, nx.RR, nx.RR, nx.RS, nx.RC}
		p.Hold = 0.8
	}))
	hlib.Register("C29", "streams", 3, again(func(p *hlib.Profile) {
		p.Kinds = []int{nx.RS, nx.RC}
		p.None = 0.4
	}))
	hlib.Register("C29", "again-and-again", 2, forever)
}
