package main

import (
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
)

func mix(wide string, max int, shape func(p *hlib.Profile)) func() {
	return func() {
		e := newEnv()
		e.w.Wide = wide
		e.start(1 + vsim.Choose(2, "guests"))
		for _, g := range e.guests {
			hlib.Burn(g.hs, g.gs)
		}
		p := swarm(hlib.DefaultProfile())
		shape(&p)
		n := 1 + vsim.Choose(max, "calls")
		if vsim.Flip(0.02, "crowd") {
			p.Hold, p.MaxData, p.MaxItems = 0.9, 32, min(p.MaxItems, 5)
			p.Flood, p.Nested = 0, 0
			n = 60 + vsim.Choose(220, "crowd.calls")
		}
		if p.Flood > 1000 {
			n = min(n, 2)
		}
		e.drive(e.w, &p, n)
		e.finish()
	}
}

func kinds(l ...int) func(p *hlib.Profile) {
	return func(p *hlib.Profile) { p.Kinds = l }
}

func init() {
	all := kinds(nx.RR, nx.FNF, nx.RS, nx.RC)
	hlib.Register("C18", "mixed", 5, mix("C18", 14, all))
	hlib.Register("C18", "calls", 2, mix("C18", 14, func(p *hlib.Profile) {
		p.Kinds = []int{nx.RR, nx.RR, nx.FNF}
		p.Nested = 0.5
	}))
	hlib.Register("C18", "channels", 3, mix("C18", 8, kinds(nx.RC)))
	hlib.Register("C18", "streams", 2, mix("C18", 8, kinds(nx.RS)))
	hlib.Register("C18", "demand", 2, mix("C18", 8, func(p *hlib.Profile) {
		p.Kinds = []int{nx.RS, nx.RC}
		p.Demand, p.Stall, p.Eager = 0.95, 0.3, 0
	}))
	hlib.Register("C18", "cancels", 2, mix("C18", 8, func(p *hlib.Profile) {
		p.Kinds = []int{nx.RS, nx.RC, nx.RR}
		p.Cancel, p.None = 0.8, 0.3
	}))
	hlib.Register("C18", "refused", 1, mix("C18", 14, func(p *hlib.Profile) {
		p.Kinds = []int{nx.RR, nx.FNF, nx.RS, nx.RC}
		p.Bad = 0.3
	}))
	hlib.Register("C19", "load", 3, mix("C19", 60, func(p *hlib.Profile) {
		p.Kinds = []int{nx.RR, nx.FNF, nx.RS, nx.RC}
		p.Cancel, p.Stall, p.None = 0, 0, 0
	}))
	hlib.Register("C19", "flood", 2, mix("C19", 6, func(p *hlib.Profile) {
		p.Kinds = []int{nx.RS, nx.RC, nx.RR}
		p.Flood = []int{40, 100, 300}[vsim.Choose(3, "flood")]
		if vsim.Flip(0.03, "flood.long") {
			p.Flood = 1100 + vsim.Choose(1000, "flood.items")
		}
		p.MaxData = 24
		p.Cancel, p.Stall, p.None, p.Eager = 0, 0, 0, 0.5
	}))
	hlib.Register("C19", "nested", 2, mix("C19", 30, func(p *hlib.Profile) {
		p.Kinds = []int{nx.RR}
		p.Nested = 0.8
	}))
}
