package main

import (
	"fmt"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/zverif/evilguest"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
	context "vsim/scontext"
)

// hostile is a module of the mesh that does not follow the protocol.
type hostile struct {
	*evilguest.Guest
	e      *env
	inst   *host.Instance
	closed bool
}

const evilFile = "/modules/evil.wasm"

// load loads the module, maybe in place of another one.
func (e *env) loadHostile(n int) *hostile {
	h := &hostile{e: e, Guest: evilguest.New(fmt.Sprintf("evil%d", n), func(int) []uint32 { return []uint32{0, 1, 2, 3} })}
	h.Table = h.table
	h.Faulty = []float64{0, 0.03, 0.2}[vsim.Choose(3, "evil.faulty")]
	e.reading[vsim.Self()] = func(string) error {
		vsim.SetFile(evilFile, []byte("\x00asm:"+h.Prog))
		return nil
	}
	vsim.Event("load %s", h.Prog)
	inst, err := e.m.LoadModule(context.Background(), evilFile)
	vsim.Event("loaded %s failed=%v", h.Prog, err != nil)
	if err != nil {
		return nil
	}
	h.inst = inst
	return h
}

// table is an operation table that names operations of others as imports and
// its own as exports, in any number and with any types.
func (h *hostile) table() []byte {
	var t operations.Table
	for n := vsim.Choose(12, "evil.ops"); n > 0; n-- {
		o := operations.Operation{Index: uint32(vsim.Choose(6, "evil.index")), Type: operations.RequestType(vsim.Choose(6, "evil.optype")), Direction: operations.Direction(vsim.Choose(4, "evil.opdir"))}
		if vsim.Flip(0.1, "evil.bigindex") {
			o.Index = 1<<32 - 1
		}
		switch {
		case o.Direction != operations.Export && (!h.e.selfish || vsim.Flip(0.7, "evil.good")):
			op := h.e.ops[vsim.Choose(len(h.e.ops), "evil.of")]
			o.Namespace, o.Operation = op.NS, op.Name
			if vsim.Flip(0.8, "evil.kind") {
				o.Type = operations.RequestType(op.Kind)
			}
		default:
			op := h.e.evil[vsim.Choose(len(h.e.evil), "evil.own")]
			o.Namespace, o.Operation = op.NS, op.Name
			if vsim.Flip(0.8, "evil.kind") {
				o.Type = operations.RequestType(op.Kind)
			}
		}
		t = append(t, o)
		if vsim.Flip(0.1, "evil.twice") {
			t = append(t, o)
		}
	}
	return t.ToBytes()
}

// hostileModule: a module that breaks the protocol is loaded, called, loaded
// again and closed beside good ones that do not notice.
func hostileModule() {
	e := newEnv()
	prop = "C27"
	for _, w := range []*hlib.W{e.w, e.loose} {
		w.Wide, w.Strict, w.Scatter = "C27", false, true
	}
	for k := 0; k < 4; k++ {
		e.evil = append(e.evil, &hlib.Op{Kind: k + 1, NS: "evil", Name: fmt.Sprintf("op%d", k)})
	}
	e.phantoms = vsim.Flip(0.5, "evil.phantoms")
	e.selfish = vsim.Flip(0.5, "evil.selfish")
	e.plan(1 + vsim.Choose(3, "modules"))
	p := swarm(hlib.DefaultProfile())
	p.Kinds = []int{nx.RR, nx.FNF, nx.RS, nx.RC}
	muted := e.w.Fork()
	muted.Mute = true
	muted.Detach() // the hostile module may pass on what it gets
	froms := map[*hlib.Inter]*gen{}
	mcall := func(from *gen) {
		op := e.evil[vsim.Choose(len(e.evil), "evil.callop")]
		side, at := e.outside(op), uint32(0)
		if from != nil {
			ok := false
			if at, ok = from.imports[op]; !ok {
				return
			}
			side = from.side
		}
		q := p
		q.Nested = 0
		i := muted.New(&q, op.Kind, side, nowhere, op)
		i.Named = &at
		froms[i] = from
		muted.Start(i)
	}
	var all []*hostile
	loads := func(n int) {
		for k := 0; k < n; k++ {
			vsim.SleepNs(int64(vsim.Choose(6000, "evil.loadat")) * ms)
			if h := e.loadHostile(len(all)); h != nil {
				all = append(all, h)
			}
		}
	}
	n := 1 + vsim.Choose(2, "evil.loads")
	if vsim.Flip(0.5, "evil.first") {
		loads(1)
		n--
	}
	for _, m := range e.mods {
		e.load(m)
	}
	e.drive(&p, 1+vsim.Choose(10, "calls"))
	vsim.GoHarness(func() { loads(n) })
	if vsim.Flip(0.3, "evil.reload") {
		vsim.GoHarness(func() {
			vsim.SleepNs(int64(vsim.Choose(3000, "reload.sleep")) * ms)
			e.load(e.mods[vsim.Choose(len(e.mods), "reload.which")])
		})
	}
	for k := vsim.Choose(10, "evil.calls"); k > 0; k-- {
		at := int64(vsim.Choose(2500, "evil.callat")) * ms
		vsim.GoHarness(func() {
			vsim.SleepNs(at)
			g := (*gen)(nil)
			if vsim.Flip(0.5, "evil.callfrom") {
				g = e.pickGen()
			}
			if g == nil {
				mcall(nil)
				return
			}
			g.later(0, func() { mcall(g) })
		})
	}
	e.idle()
	for _, h := range all {
		vsim.GoHarness(func() {
			_ = h.inst.Close()
			h.closed = true
		})
	}
	e.finish()
	done := true
	for _, h := range all {
		done = done && h.closed
		if h.closed && !h.M.Closed() {
			fail("not-released", "%s is closed but its module was not", h.Prog)
		}
		if !h.closed && !e.phantoms && !e.selfish {
			fail("close-hangs", "Close of %s does not return although nothing is served for it any more", h.Prog)
		}
	}
	if done {
		var l []*hlib.Inter
		for _, i := range muted.Inters {
			if g := froms[i]; g == nil || !g.gone() {
				l = append(l, i)
			}
		}
		muted.Inters = l
		if i, why := muted.Hung(); i != nil {
			fail("call-hangs", "the hostile modules are closed, but of %s %s", i, why)
		}
		if i, why := e.w.Abandoned(); i != nil {
			fail("handler-hangs", "the hostile modules are closed, but of %s %s", i, why)
		}
	}
	e.again(&p)
}

func init() { hlib.Register("C27", "hostile-module", 3, hostileModule) }
