// The wasm world runs the host side of the code under test against guests that
// run its guest side, over a simulated WebAssembly boundary.
package main

import (
	"encoding/binary"
	"fmt"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/zverif/adapt"
	"github.com/nanobus/iota/go/zverif/hlib"
	"github.com/tetratelabs/wazero"
	"vsim"
	"vsim/nx"
	context "vsim/scontext"
)

const (
	ms     = int64(1000000)
	settle = 4 * 3600 * 1000 * ms
)

type env struct {
	w      *hlib.W
	guests []*guest
}

// guest is an instance of a guest program.
type guest struct {
	e       *env
	n       int
	prog    string
	exports map[int][]*hlib.Op // served by the guest
	imports map[int][]*hlib.Op // served by the host
	pumpAt  uint32
	q       []func()
	api     *nx.Guest
	inst    *host.Instance
	mod     *wazero.Module
	hs, gs  *hlib.Side
	hc      nx.Caller
	spec    []spec
}

type spec struct {
	imported bool
	op       *hlib.Op
}

func side(v string) context.Context {
	return context.WithValue(context.Background(), nx.SideKey{}, v)
}

func newEnv() *env {
	e := &env{w: hlib.NewW()}
	hlib.NestOp = func(w *hlib.W, from, to *hlib.Side, kind int) *hlib.Op {
		for _, g := range e.guests {
			if from == g.gs {
				return pickOp(g.imports[kind])
			}
			if from == g.hs {
				return pickOp(g.exports[kind])
			}
		}
		return nil
	}
	wazero.OnReenter = func(m *wazero.Module) {
		hlib.Fail("C19", "entered-twice", "two host goroutines are inside guest %d at the same time", m.Universe())
	}
	if vsim.Flip(0.3, "guest.slow") {
		wazero.TrapAt = e.slow
	}
	return e
}

// slow makes a guest take its time; it never traps.
func (e *env) slow(m *wazero.Module, fn string) bool {
	if vsim.Flip(0.2, "guest.stall") {
		vsim.Count("fault:guest-stall")
		vsim.SleepNs(int64(vsim.Range(1, 300, "guest.ms")) * ms)
	}
	return false
}

func pickOp(l []*hlib.Op) *hlib.Op { return l[vsim.Choose(len(l), "op")] }

// plan draws the operations of a guest.
func (e *env) plan() *guest {
	g := &guest{e: e, n: len(e.guests), exports: map[int][]*hlib.Op{}, imports: map[int][]*hlib.Op{}}
	g.prog = fmt.Sprintf("guest%d", g.n)
	ns := []string{"a", "b.c", ""}
	used := map[string]bool{}
	for k := 0; k < 8+vsim.Choose(8, "ops"); k++ {
		s := spec{imported: k%8 >= 4}
		kind := k%4 + 1
		if k >= 8 {
			kind = 1 + vsim.Choose(4, "op.kind")
			s.imported = vsim.Flip(0.5, "op.imported")
		}
		s.op = &hlib.Op{Kind: kind, NS: ns[vsim.Choose(3, "op.ns")], Name: fmt.Sprintf("op%d", vsim.Choose(4, "op.name"))}
		key := fmt.Sprint(s.imported, kind, s.op.NS, "/", s.op.Name)
		if used[key] {
			s.op.Name = fmt.Sprintf("x%d", k)
		}
		used[fmt.Sprint(s.imported, kind, s.op.NS, "/", s.op.Name)] = true
		if s.imported {
			g.imports[kind] = append(g.imports[kind], s.op)
		} else {
			g.exports[kind] = append(g.exports[kind], s.op)
		}
		g.spec = append(g.spec, s)
	}
	for i := len(g.spec) - 1; i > 0; i-- {
		j := vsim.Choose(i+1, "op.order")
		g.spec[i], g.spec[j] = g.spec[j], g.spec[i]
	}
	e.guests = append(e.guests, g)
	return g
}

// program is what the guest does when it starts.
func (g *guest) program(x *nx.Guest) {
	g.api = x
	w := g.e.w
	pump := vsim.Choose(len(g.spec)+1, "pump.at")
	for k := 0; k <= len(g.spec); k++ {
		if k == pump {
			x.Export.FNF("verif", "pump", func(nx.Ctx, nx.Msg) { g.step() })
		}
		if k == len(g.spec) {
			break
		}
		op := g.spec[k].op
		switch {
		case g.spec[k].imported:
			x.Export.Import(op.Kind, op.NS, op.Name)
		case op.Kind == nx.RR:
			x.Export.RR(op.NS, op.Name, w.HRR(op))
		case op.Kind == nx.FNF:
			x.Export.FNF(op.NS, op.Name, w.HFNF(op))
		case op.Kind == nx.RS:
			x.Export.RS(op.NS, op.Name, w.HRS(op))
		case op.Kind == nx.RC:
			x.Export.RC(op.NS, op.Name, w.HRC(op))
		}
	}
}

// step runs, inside the guest, the next thing it has to do.
func (g *guest) step() {
	if len(g.q) == 0 {
		return
	}
	f := g.q[0]
	g.q[0] = nil
	g.q = g.q[1:]
	f()
}

// later makes the guest do something once it is entered.
func (g *guest) later(delay int64, f func()) {
	vsim.GoHarness(func() {
		if delay > 0 {
			vsim.SleepNs(delay)
		}
		g.q = append(g.q, f)
		var md [8]byte
		binary.BigEndian.PutUint32(md[:], g.pumpAt)
		g.hc.FNF(nx.Msg{M: md[:]})
	})
}

func (g *guest) load(ctx context.Context) error {
	h, err := host.New(ctx)
	if err != nil {
		return err
	}
	return g.loadOn(ctx, h)
}

func (g *guest) loadOn(ctx context.Context, h *host.Host) error {
	nx.Programs[g.prog] = g.program
	m, err := h.Compile(ctx, []byte("\x00asm:"+g.prog))
	if err != nil {
		return err
	}
	known := len(wazero.Modules())
	inst, err := m.Instantiate(ctx)
	if err != nil {
		return err
	}
	g.inst = inst
	g.mod = wazero.Modules()[known]
	g.link()
	return nil
}

// link connects the operations by the table that the guest announced.
func (g *guest) link() {
	w := g.e.w
	find := func(o operations.Operation, imported bool) *hlib.Op {
		l := g.exports[int(o.Type)]
		if imported {
			l = g.imports[int(o.Type)]
		}
		for _, op := range l {
			if op.NS == o.Namespace && op.Name == o.Operation {
				return op
			}
		}
		return nil
	}
	n := 0
	for _, o := range g.inst.Operations() {
		if o.Namespace == "verif" {
			g.pumpAt = o.Index
			continue
		}
		op := find(o, o.Direction == operations.Import)
		if op == nil {
			hlib.Fail(hlib.Active(), "operations", "the guest announced an operation it does not have: %v", o)
			continue
		}
		n++
		op.Index = o.Index
		if o.Direction != operations.Import {
			continue
		}
		switch op.Kind {
		case nx.RR:
			g.inst.SetRequestResponseHandler(o.Index, adapt.HRR(w.HRR(op)))
		case nx.FNF:
			g.inst.SetFireAndForgetHandler(o.Index, adapt.HFNF(w.HFNF(op)))
		case nx.RS:
			g.inst.SetRequestStreamHandler(o.Index, adapt.HRS(w.HRS(op)))
		case nx.RC:
			g.inst.SetRequestChannelHandler(o.Index, adapt.HRC(w.HRC(op)))
		}
	}
	if n != len(g.spec) {
		hlib.Fail(hlib.Active(), "operations", "the guest has %d operations but announced %d", len(g.spec), n)
	}
	g.hc = adapt.Caller(side("host"), g.inst)
	name := g.prog
	g.hs = &hlib.Side{Name: "host", Call: func() nx.Caller { return g.hc }, Async: hlib.HostAsync, Host: true, Full: [5]bool{true, true, true, true, true}, Block: adapt.BlockOne, BlockSeq: adapt.BlockSeq, MaxMsg: 16000}
	g.gs = &hlib.Side{Name: name, Call: func() nx.Caller { return g.api.Caller }, Async: g.later, Full: [5]bool{nx.RS: true, nx.RC: true}, MaxMsg: 16000}
	past := func(imported bool) func(kind int) uint32 {
		return func(kind int) (n uint32) {
			for _, o := range g.inst.Operations() {
				if int(o.Type) == kind && (o.Direction == operations.Import) == imported {
					n = max(n, o.Index+1)
				}
			}
			return n
		}
	}
	g.hs.Past, g.gs.Past = past(true), past(false)
}

// start plans and loads n guests.
func (e *env) start(n int) {
	for k := 0; k < n; k++ {
		g := e.plan()
		if err := g.load(side("host")); err != nil {
			hlib.Fail(hlib.Active(), "setup-failed", "guest %d can not be loaded: %v", k, err)
		}
	}
}

func (e *env) pick() *guest { return e.guests[vsim.Choose(len(e.guests), "guest")] }

func (e *env) plan1(w *hlib.W, p *hlib.Profile, g *guest, fromGuest bool) *hlib.Inter {
	kind := p.Kinds[vsim.Choose(len(p.Kinds), "kind")]
	from, to, ops := g.hs, g.gs, g.exports
	if fromGuest {
		from, to, ops = g.gs, g.hs, g.imports
	}
	i := w.New(p, kind, from, to, pickOp(ops[kind]))
	if vsim.Flip(p.Bad, "bad") {
		i.Spoil()
	}
	return i
}

// drive makes n calls in both directions.
func (e *env) drive(w *hlib.W, p *hlib.Profile, n int) {
	for n > 0 {
		k := 1 + vsim.Choose(min(n, 5), "driver.calls")
		n -= k
		g := e.pick()
		fromGuest := vsim.Flip(0.5, "driver.side")
		pause := vsim.Flip(0.4, "driver.pause")
		vsim.GoHarness(func() {
			for ; k > 0; k-- {
				if pause {
					vsim.SleepNs(int64(vsim.Range(0, 300, "driver.sleep")) * ms)
				}
				i := e.plan1(w, p, g, fromGuest)
				if fromGuest {
					g.later(0, func() { w.Start(i) })
				} else {
					w.Start(i)
				}
			}
		})
	}
}

func (e *env) idle() {
	if !vsim.WaitIdle(settle) {
		hlib.Fail(hlib.Active(), "no-quiescence", "the system is still busy after %d simulated seconds", settle/1000/ms)
	}
}

// finish lets everything come to its end and judges it.
func (e *env) finish() {
	e.idle()
	for k := 0; k < 12 && e.w.Pending(); k++ {
		e.w.Release()
		e.w.Resume()
		e.idle()
	}
	e.w.Check()
}

func swarm(p hlib.Profile) hlib.Profile {
	off := func(x *float64, label string) {
		switch vsim.Choose(4, "swarm."+label) {
		case 0:
		case 1:
			*x = 0
		case 2:
			*x = min(0.9, *x*3)
		}
	}
	off(&p.Cancel, "cancel")
	off(&p.Err, "err")
	off(&p.Stall, "stall")
	off(&p.Demand, "demand")
	off(&p.Eager, "eager")
	off(&p.Nested, "nested")
	if vsim.Flip(0.2, "swarm.big") {
		p.MaxData = 16000
		p.MaxItems = 4
	}
	if vsim.Flip(0.2, "swarm.many") {
		p.MaxItems = 40
		p.MaxData = 24
	}
	return p
}

func init() { wazero.Limit = zzUniverses }

func main() { hlib.Main("wasm") }
