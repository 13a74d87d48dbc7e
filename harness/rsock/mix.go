package main

import (
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
)

// mix is the common scenario: clients and a server call each other.
func mix(shape func(p *hlib.Profile)) func() {
	return func() {
		e := newEnv()
		e.export(3)
		healthyNet()
		e.serve()
		e.connectAll(3)
		for _, q := range e.peers {
			hlib.Burn(q.cs, q.ss)
		}
		p := swarm(hlib.DefaultProfile())
		shape(&p)
		if p.Wide != "" {
			e.w.Wide = p.Wide
		}
		n := 1 + vsim.Choose(14, "calls")
		if vsim.Flip(0.02, "crowd") {
			n = crowd(&p)
		} else if vsim.Flip(0.02, "huge") {
			p.MaxData, p.MaxItems, p.Flood = 70000, 3, 0
			n = min(n, 4)
			c := vsim.NetCfg()
			c.TinyP = 0
			if c.Window > 0 {
				c.Window = max(c.Window, 4096)
			}
		}
		if p.Flood > 1000 {
			n = min(n, 2)
		}
		e.drive(e.w, &p, e.peers, n)
		e.finish(e.w)
	}
}

// crowd makes for many calls that are outstanding at the same time.
func crowd(p *hlib.Profile) int {
	p.Hold, p.MaxData, p.MaxItems = 0.9, 32, min(p.MaxItems, 5)
	p.Flood, p.Nested = 0, 0
	return 60 + vsim.Choose(220, "crowd.calls")
}

func kinds(l ...int) func(p *hlib.Profile) {
	return func(p *hlib.Profile) { p.Kinds = l }
}

func init() {
	all := []int{nx.RR, nx.FNF, nx.RS, nx.RC}
	hlib.Register("C01", "calls", 4, mix(kinds(nx.RR)))
	hlib.Register("C01", "mixed", 3, mix(kinds(nx.RR, nx.RR, nx.RR, nx.FNF, nx.RS, nx.RC)))
	hlib.Register("C01", "nested", 2, mix(func(p *hlib.Profile) {
		p.Kinds = []int{nx.RR, nx.RR, nx.RS}
		p.Nested = 0.7
	}))
	hlib.Register("C01", "held", 2, mix(func(p *hlib.Profile) {
		p.Kinds = []int{nx.RR, nx.RR, nx.RR, nx.RS}
		p.Hold = 0.5
	}))
	hlib.Register("C02", "streams", 4, mix(kinds(nx.RS)))
	hlib.Register("C02", "mixed", 3, mix(kinds(nx.RR, nx.RS, nx.RS, nx.RS, nx.RC)))
	hlib.Register("C02", "flood", 1, mix(func(p *hlib.Profile) {
		p.Kinds = []int{nx.RS}
		p.Flood = []int{50, 120, 300}[vsim.Choose(3, "flood")]
		if vsim.Flip(0.03, "flood.long") {
			p.Flood = 1100 + vsim.Choose(1000, "flood.items")
		}
		p.MaxData = 40
		p.Cancel = 0
	}))
	hlib.Register("C03", "channels", 4, mix(kinds(nx.RC)))
	hlib.Register("C03", "mixed", 3, mix(kinds(nx.RC, nx.RC, nx.RC, nx.RR, nx.RS)))
	hlib.Register("C03", "cancels", 2, mix(func(p *hlib.Profile) {
		p.Kinds = []int{nx.RC}
		p.Cancel = 0.5
		p.Err = 0
	}))
	hlib.Register("C03", "errors", 2, mix(func(p *hlib.Profile) {
		p.Kinds = []int{nx.RC}
		p.Err = 0.4
	}))
	hlib.Register("C04", "demand", 4, mix(func(p *hlib.Profile) {
		p.Kinds = []int{nx.RS, nx.RC}
		p.Demand = 0.9
		p.Eager = 0
		p.Cancel = 0.1
		p.MaxItems = 20
	}))
	hlib.Register("C04", "stalls", 3, mix(func(p *hlib.Profile) {
		p.Kinds = []int{nx.RS, nx.RC, nx.RR}
		p.Demand = 0.95
		p.Stall = 0.6
		p.Eager = 0
		p.Cancel = 0.1
	}))
	hlib.Register("C05", "cancels", 4, mix(func(p *hlib.Profile) {
		p.Kinds = []int{nx.RS, nx.RC}
		p.Cancel = 0.8
		p.None = 0.3
	}))
	hlib.Register("C05", "bystanders", 3, mix(func(p *hlib.Profile) {
		p.Kinds = all
		p.Cancel = 0.5
		p.Wide = "C05"
	}))
	hlib.Register("C06", "messages", 3, mix(func(p *hlib.Profile) {
		p.Kinds = []int{nx.FNF, nx.FNF, nx.FNF, nx.RR, nx.RS, nx.RC}
	}))
	hlib.Register("C06", "unknown", 3, mix(func(p *hlib.Profile) {
		p.Kinds = []int{nx.FNF, nx.FNF, nx.FNF, nx.RR, nx.RS, nx.RC}
		p.BadFNF = 0.4
		p.Wide = "C06"
	}))
}
