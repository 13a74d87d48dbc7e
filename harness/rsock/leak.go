package main

import (
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
)

// leaks: what is left of ended interactions on a connection that goes on.
func leaks(all bool, shape func(p *hlib.Profile)) func() {
	return func() {
		e := newEnv()
		e.export(2)
		healthyNet()
		e.serve()
		e.connectAll(2)
		p := swarm(hlib.DefaultProfile())
		p.MaxData, p.MaxItems = 40, 6
		p.NoInput = 0
		if all {
			p.None, p.Hold = 0, 0
		} else {
			p.None, p.Hold = 0.3, 0.2
		}
		p.Bad = []float64{0, 0.2}[vsim.Choose(2, "bad")]
		if shape != nil {
			shape(&p)
		}
		quick := hlib.Profile{Kinds: []int{nx.RR}, MaxData: 0}
		k := hlib.Leak{W: e.w, Idle: e.idle, All: all}
		k.Round = func(n int) { e.drive(e.w, &p, e.peers, n) }
		k.Flush = func() {
			for _, q := range e.peers {
				for n := 0; n < 2; n++ {
					for _, fromServer := range []bool{false, true} {
						i := e.plan(e.w, &quick, q, fromServer)
						i.One.Caller = 0
						vsim.GoHarness(func() { e.w.Start(i) })
					}
				}
				e.idle()
			}
		}
		k.Roots = func() []any {
			r := []any{e.srv, e.ctx}
			for _, q := range e.peers {
				r = append(r, q.h, q.t, q.ctx)
			}
			for _, c := range e.accepted {
				r = append(r, c)
			}
			return r
		}
		rounds, calls := 5, 3+vsim.Choose(6, "calls")
		if vsim.Flip(0.3, "short") {
			rounds, calls = 2, 1+vsim.Choose(12, "calls")
		}
		k.Run(rounds, calls)
	}
}

func init() {
	hlib.Register("C25", "all-end", 4, leaks(true, nil))
	hlib.Register("C25", "one-kind", 3, leaks(true, func(p *hlib.Profile) {
		p.Kinds = []int{1 + vsim.Choose(4, "thekind")}
	}))
	hlib.Register("C25", "cancelled", 2, leaks(true, func(p *hlib.Profile) {
		p.Kinds = []int{nx.RS, nx.RC}
		p.Cancel, p.None = 1, 0.7
	}))
	hlib.Register("C25", "some-end", 2, leaks(false, nil))
}
