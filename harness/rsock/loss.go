package main

import (
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
)

// kill ends the connection of q in one of many ways.
func (e *env) kill(q *peer) {
	how := vsim.Choose(8, "kill")
	vsim.Event("kill %s %d", q.name, how)
	switch how {
	case 0:
		q.cconn.Reset()
	case 1:
		q.sconn.HalfEOF()
	case 2:
		q.cconn.HalfEOF()
	case 3:
		if q.t != nil {
			_ = q.t.Close()
		} else {
			_ = q.cconn.Close()
		}
	case 4:
		q.cancel()
		if q.t == nil {
			_ = q.sconn.Close()
		}
	case 5:
		_ = q.sconn.Close()
	case 6:
		_ = e.srv.Close()
	case 7:
		e.cancel()
	}
}

func lossy(random bool) func() {
	return func() {
		e := newEnv()
		e.w.Lossy = true
		e.w.Wide = "C09"
		e.export(3)
		healthyNet()
		e.serve()
		e.connectAll(3)
		p := swarm(hlib.DefaultProfile())
		p.Hold = []float64{0, 0.5, 0.9}[vsim.Choose(3, "hold")]
		p.None = []float64{0.05, 0.5, 0.9}[vsim.Choose(3, "none")]
		if vsim.Flip(0.3, "onekind") {
			p.Kinds = []int{1 + vsim.Choose(4, "thekind")}
		}
		var victims []*peer
		for _, q := range e.peers {
			if vsim.Flip(0.7, "victim") {
				victims = append(victims, q)
			}
		}
		if random {
			c := vsim.NetCfg()
			rate := []float64{0.003, 0.02, 0.1}[vsim.Choose(3, "fault.rate")]
			switch vsim.Choose(4, "fault.kind") {
			case 0:
				c.ResetP = rate
			case 1:
				c.CutP = rate
			case 2:
				c.WriteErrP = rate
			default:
				c.ResetP, c.CutP, c.WriteErrP = rate/3, rate/3, rate/3
			}
			c.Faulty = func(s *vsim.SimConn) bool {
				for _, q := range victims {
					if s == q.cconn || s == q.sconn {
						return true
					}
				}
				return false
			}
		}
		e.drive(e.w, &p, e.peers, 1+vsim.Choose(14, "calls"))
		for _, q := range victims {
			q := q
			if vsim.Flip(0.7, "killed") {
				vsim.GoHarness(func() {
					vsim.SleepNs(int64(vsim.Range(0, 600, "kill.at")) * ms)
					if vsim.Flip(0.25, "partition") {
						q.cconn.Freeze(true)
						vsim.SleepNs(int64(vsim.Range(0, 5000, "partition.ms")) * ms)
						if vsim.Flip(0.5, "heal") {
							q.cconn.Freeze(false)
							return
						}
					}
					e.kill(q)
					q.cconn.Freeze(false)
				})
			}
		}
		e.idle()
		c := vsim.NetCfg()
		c.ResetP, c.CutP, c.WriteErrP = 0, 0, 0
		// stalled consumers and held answers go on, on whatever connections are left
		if vsim.Flip(0.5, "release") {
			e.w.Release()
			e.w.Resume()
			e.idle()
		}
		for _, q := range e.peers {
			if !q.cconn.WriteFailed() {
				continue
			}
			// nobody but the side that failed to write knows
			of := e.w.Fork()
			for _, i := range e.w.Inters {
				if i.From == q.cs || i.From == q.ss {
					of.Inters = append(of.Inters, i)
				}
			}
			if i, why := of.Hung(); i != nil {
				hlib.Fail("C09", "call-hangs", "writing to the connection of %s has failed, but of %s %s", q.name, i, why)
			}
		}
		for _, q := range e.peers {
			if !q.done {
				e.kill(q)
				if vsim.Flip(0.3, "kill.idle") {
					e.idle()
				}
			}
		}
		e.idle()
		for _, q := range e.peers {
			if !q.done {
				hlib.Fail("C09", "connection-alive", "%s did not notice the end of its connection", q.name)
			}
		}
		e.w.Check()
		// calls made now fail at once
		late := e.w.Fork()
		p.Hold, p.Stall = 0, 0
		var l []*hlib.Inter
		for k := 1 + vsim.Choose(4, "latecalls"); k > 0; k-- {
			q := e.peers[vsim.Choose(len(e.peers), "driver.peer")]
			i := e.plan(late, &p, q, vsim.Flip(0.4, "driver.side"))
			l = append(l, i)
			vsim.GoHarness(func() { late.Start(i) })
		}
		at := vsim.NowNs()
		e.idle()
		for _, i := range l {
			if i.Kind == nx.RR && !i.Ended() || i.Out != nil && !i.Out.OverOrIdle() {
				hlib.Fail("C09", "late-call-hangs", "%s was made after the connection had ended and has not failed %d s later, when nothing happens any more", i, (vsim.NowNs()-at)/1000/ms)
			}
			if i.Invoked > 0 {
				hlib.Fail("C09", "late-call-arrived", "%s was made after the connection had ended but reached a handler", i)
			}
		}
		e.idle()
		late.Check()
		e.w.Check()
	}
}

func init() {
	hlib.Register("C09", "random-faults", 4, lossy(true))
	hlib.Register("C09", "ended", 4, lossy(false))
}
