package main

import (
	"context"

	"github.com/nanobus/iota/go/zverif/adapt"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
)

// contexts: what a guest calls for a call that it serves runs under the context
// of that call.
func contexts() {
	e := newEnv()
	e.start(1 + vsim.Choose(3, "guests"))
	w := e.w
	owner := map[*hlib.Side]*guest{}
	for _, g := range e.guests {
		g := g
		owner[g.gs] = g
		g.hs.CallFor = func(i *hlib.Inter) nx.Caller {
			ctx := context.WithValue(side("host"), nx.CallKey{}, i.ID)
			return adapt.Caller(ctx, g.inst)
		}
	}
	for _, g := range e.guests {
		hlib.Burn(g.hs)
	}
	p := swarm(hlib.DefaultProfile())
	p.Kinds = []int{nx.RR, nx.RR, nx.RR, nx.FNF, nx.RS, nx.RC}
	p.Hold = []float64{0.2, 0.6}[vsim.Choose(2, "hold")]
	p.MaxData, p.MaxItems, p.Big = 20, 3, false
	small := p
	small.Hold, small.Nested = 0, 0
	served := map[*hlib.Inter]uint32{} // stream ids of the calls that guests serve
	sub := func(g *guest, i *hlib.Inter, id uint32) {
		kind := 1 + vsim.Choose(4, "sub.kind")
		c := w.New(&small, kind, g.gs, g.hs, pickOp(g.imports[kind]))
		c.Parent, c.Under = i, id
		g.later(int64(vsim.Choose(3, "sub.ms"))*ms, func() { w.Start(c) })
	}
	w.Nest = func(i *hlib.Inter, q *hlib.Profile) *hlib.Inter {
		to := hlib.NestOp(w, i.To, i.From, nx.RR)
		c := w.New(q, nx.RR, i.To, i.From, to)
		c.Under = served[i]
		return c
	}
	w.OnInvoke = func(i *hlib.Inter, c nx.Ctx) {
		if g := owner[i.To]; g != nil { // runs in the guest
			if c.Parent == 0 {
				return // streams do not tell
			}
			served[i] = c.Parent
			for n := vsim.Choose(3, "subs"); n > 0; n-- {
				id := c.Parent
				if vsim.Flip(0.15, "sub.unknown") {
					id = 0x7fffff00 + uint32(vsim.Choose(16, "sub.id"))
				}
				sub(g, i, id)
			}
			return
		}
		// runs in the host
		switch q := i.Parent; {
		case owner[i.From] == nil:
		case i.Under == 0 || q == nil || served[q] != i.Under:
			if c.Call != 0 {
				hlib.Fail("C26", "foreign-context", "%s was made for no call but runs under the context of call %x", i, c.Call&0xffffff)
			}
		case c.Call == q.ID:
			vsim.Count("reach:parent-context")
		case c.Call != 0:
			hlib.Fail("C26", "foreign-context", "%s was made for %s but runs under the context of call %x", i, q, c.Call&0xffffff)
		case q.Kind == nx.RR && !q.Settled():
			hlib.Fail("C26", "context-lost", "%s was made for %s, which is not answered yet, but does not run under its context", i, q)
		default:
			vsim.Count("reach:parent-over")
		}
	}
	e.drive(w, &p, 1+vsim.Choose(14, "calls"))
	e.finish()
}

func init() {
	hlib.Register("C26", "contexts", 1, contexts)
}
