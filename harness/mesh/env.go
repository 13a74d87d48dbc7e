// The mesh world runs meshes of modules that call each other, are loaded in any
// order and are loaded again while they are in use.
package main

import (
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
	"github.com/nanobus/iota/go/zverif/adapt"
	"github.com/nanobus/iota/go/zverif/hlib"
	"github.com/tetratelabs/wazero"
	"vsim"
	"vsim/nx"
	context "vsim/scontext"
)

const (
	ms     = int64(1000000)
	grace  = 5000 * ms
	settle = 4 * 3600 * 1000 * ms
)

var errNobody = errors.New("nobody exports it")

type env struct {
	w      *hlib.W // calls that must succeed
	loose  *hlib.W // calls that may fail
	m      *mesh.Mesh
	mods   []*module
	ops    []*hlib.Op
	tick   int
	loads  int
	shared []byte
	// what each goroutine that loads a module reads
	reading map[int]func(string) error
	// what a module that breaks the protocol exports
	evil     []*hlib.Op
	phantoms bool // its calls are answered like those of others
	selfish  bool // it calls what such modules export, too

	loading int  // loads in progress
	closing bool // Close has been called
	base    int  // goroutines before there was a mesh
}

// module is a file from which a mesh loads modules.
type module struct {
	e       *env
	file    string
	exports []*hlib.Op // that its versions export
	gens    []*gen
}

// gen is one attempt to load a module.
type gen struct {
	e       *env
	m       *module
	n       int
	name    string
	drop    map[*hlib.Op]bool
	exports map[*hlib.Op]uint32
	imports map[*hlib.Op]uint32
	began   int   // when the load began
	at      int64 // the same, in simulated time
	done    int   // when it returned
	failed  bool
	broken  bool // the load is made to fail
	pumpAt  uint32
	pumpOp  *hlib.Op
	api     *nx.Guest
	inst    *host.Instance
	hc      nx.Caller
	q       []func()
	early   int // pumps to be made once the module is loaded
	side    *hlib.Side
}

var prop = "C21"

func fail(class, format string, a ...any) { hlib.Fail(prop, class, format, a...) }

func (e *env) now() int {
	e.tick++
	return e.tick
}

// call is an interaction of the model with what the mesh adds.
type call struct {
	i     *hlib.Inter
	op    *hlib.Op
	from  *gen // nil: outside
	began int
}

var calls map[*hlib.Inter]*call

func init() { vsim.RegisterReset(func() { calls = map[*hlib.Inter]*call{} }) }

func key(op *hlib.Op) string { return fmt.Sprintf("%q/%q kind %d", op.NS, op.Name, op.Kind) }

func newEnv() *env {
	prop = "C21"
	e := &env{w: hlib.NewW(), m: mesh.New(), reading: map[int]func(string) error{}, base: vsim.NumG()}
	vsim.SetFileFault(func(file string) error { return e.reading[vsim.Self()](file) })
	e.w.Wide, e.w.Relay = "C21", true
	e.w.Nest = e.nest
	e.loose = e.w.Fork()
	if vsim.Flip(0.5, "shared.meta") {
		e.shared = make([]byte, 8)
	}
	e.loose.Lossy, e.loose.Maybe = true, true
	wazero.OnReenter = func(m *wazero.Module) {
		hlib.Fail("C19", "entered-twice", "two host goroutines are inside guest %d at the same time", m.Universe())
	}
	if vsim.Flip(0.3, "guest.slow") {
		wazero.TrapAt = func(m *wazero.Module, fn string) bool {
			if vsim.Flip(0.2, "guest.stall") {
				vsim.Count("fault:guest-stall")
				vsim.SleepNs(int64(vsim.Range(1, 300, "guest.ms")) * ms)
			}
			return false
		}
	}
	return e
}

// plan draws modules and what they export.
func (e *env) plan(n int) {
	ns, names := []string{"a", "b.c", ""}, []string{"op0", "op1", "op2"}
	if vsim.Flip(0.2, "names.confusing") {
		ns, names = []string{"b", "b.c", "", "B", "b/c"}, []string{"op0", "c.op0", "b.c.op0", "Op0", "c/op0", "op", "0"}
	}
	used := map[string]bool{}
	for k := 0; k < n; k++ {
		m := &module{e: e, file: fmt.Sprintf("/modules/m%d.wasm", k)}
		e.mods = append(e.mods, m)
		n := vsim.Choose(7, "exports")
		if vsim.Flip(0.01, "exports.many") {
			n = 7 + vsim.Choose(80, "exports.number")
		}
		for j := n; j >= 0; j-- {
			op := &hlib.Op{Kind: 1 + vsim.Choose(4, "op.kind"), NS: ns[vsim.Choose(len(ns), "op.ns")], Name: names[vsim.Choose(len(names), "op.name")]}
			if used[key(op)] {
				op.Name = fmt.Sprintf("x%d.%d", k, j)
			}
			used[key(op)] = true
			m.exports = append(m.exports, op)
			e.ops = append(e.ops, op)
		}
	}
	// some operations have two providers
	for _, op := range e.ops {
		if vsim.Flip(0.1, "op.rival") {
			m := e.mods[vsim.Choose(n, "op.rivalat")]
			if m.provides(op) {
				continue
			}
			m.exports = append(m.exports, op)
		}
	}
}

func (m *module) provides(op *hlib.Op) bool {
	for _, o := range m.exports {
		if o == op {
			return true
		}
	}
	return false
}

// next plans the next version of a module.
func (m *module) next(bulk bool) *gen {
	e := m.e
	g := &gen{e: e, m: m, n: len(m.gens), drop: map[*hlib.Op]bool{}, exports: map[*hlib.Op]uint32{}, imports: map[*hlib.Op]uint32{}}
	g.name = fmt.Sprintf("%s.v%d", m.file[9:], g.n)
	m.gens = append(m.gens, g)
	g.side = &hlib.Side{Name: g.name, Call: func() nx.Caller { return g.api.Caller }, Async: g.later, Full: [5]bool{nx.RS: true, nx.RC: true}, MaxMsg: 16000, Gone: g.gone, Closed: g.closed}
	type item struct {
		op  *hlib.Op
		imp bool
	}
	var l []item
	for _, op := range m.exports {
		if g.n > 0 && vsim.Flip(0.1, "export.drop") {
			g.drop[op] = true
			continue
		}
		l = append(l, item{op, false})
	}
	for _, op := range e.ops {
		if vsim.Flip(0.4, "import") {
			l = append(l, item{op, true})
		}
	}
	for _, op := range e.evil {
		if vsim.Flip(0.4, "import") {
			l = append(l, item{op, true})
		}
	}
	for vsim.Flip(0.3, "import.unknown") {
		l = append(l, item{&hlib.Op{Kind: 1 + vsim.Choose(4, "op.kind"), NS: "no", Name: fmt.Sprintf("such%d", len(l))}, true})
	}
	for i := len(l) - 1; i > 0; i-- {
		j := vsim.Choose(i+1, "op.order")
		l[i], l[j] = l[j], l[i]
	}
	pump := vsim.Choose(len(l)+1, "pump.at")
	if !bulk && vsim.Flip(0.5, "pump.shared") {
		for _, x := range l {
			if !x.imp && x.op.Kind == nx.FNF {
				pump, g.pumpOp = -1, x.op // serves as the pump, too
				break
			}
		}
	}
	nx.Programs[g.name] = func(x *nx.Guest) {
		if g.broken {
			panic("the module fails to start")
		}
		g.api = x
		var count [5]uint32
		for k := 0; k <= len(l); k++ {
			if k == pump {
				g.pumpAt = count[nx.FNF]
				count[nx.FNF]++
				x.Export.FNF("verif", "pump "+g.name, func(nx.Ctx, nx.Msg) { g.step() })
			}
			if k == len(l) {
				break
			}
			op := l[k].op
			if op == g.pumpOp && !l[k].imp {
				g.pumpAt = count[nx.FNF]
			}
			if l[k].imp {
				g.imports[op] = x.Export.Import(op.Kind, op.NS, op.Name)
				continue
			}
			g.exports[op] = count[op.Kind]
			count[op.Kind]++
			g.export(x, op)
		}
	}
	return g
}

// export registers a handler that says which module it belongs to.
func (g *gen) export(x *nx.Guest, op *hlib.Op) {
	w := g.e.w
	switch op.Kind {
	case nx.RR:
		h := w.HRR(op)
		x.Export.RR(op.NS, op.Name, func(c nx.Ctx, m nx.Msg) nx.OneSrc {
			g.reached(op, m)
			return h(c, m)
		})
	case nx.FNF:
		h := w.HFNF(op)
		x.Export.FNF(op.NS, op.Name, func(c nx.Ctx, m nx.Msg) {
			if op == g.pumpOp && string(m.D) == "pump" {
				g.step()
				return
			}
			g.reached(op, m)
			h(c, m)
		})
	case nx.RS:
		h := w.HRS(op)
		x.Export.RS(op.NS, op.Name, func(c nx.Ctx, m nx.Msg) nx.Src {
			g.reached(op, m)
			return h(c, m)
		})
	case nx.RC:
		h := w.HRC(op)
		x.Export.RC(op.NS, op.Name, func(c nx.Ctx, m nx.Msg, in nx.Seq) nx.Src {
			g.reached(op, m)
			return h(c, m, in)
		})
	}
}

// reached is told that a call of an operation has reached the module.
func (g *gen) reached(op *hlib.Op, m nx.Msg) {
	e := g.e
	i := e.w.Lookup(m)
	if e.phantoms {
		e.w.Phantom = g.side
	}
	c := calls[i]
	if c == nil {
		return
	}
	vsim.Event("%s reached %s", i, g.name)
	if c.op != op {
		fail("wrong-operation", "a call of %s reached %s of %s", key(c.op), key(op), g.name)
	}
	for _, l := range g.m.gens {
		if l != g && l.done > 0 && !l.failed && l.done < c.began && g.done > 0 && l.began > g.done && !l.drop[op] {
			fail("stale", "a call of %s reached %s although %s had replaced it before the call was made", key(op), g.name, l.name)
		}
	}
	i.Move(g.side)
	at := g.exports[op]
	i.Named = &at
}

// replacedAt tells whether the module may have been replaced long enough for
// it to be closed.
func (g *gen) gone() bool {
	if g.e.closing {
		return true
	}
	for _, l := range g.m.gens {
		if l == g || l.failed || l.began == 0 {
			continue
		}
		before := l.done > 0 && l.done < g.began
		if !before && vsim.NowNs() >= l.at+grace {
			return true
		}
	}
	return g.done > 0 && g.failed
}

// closed tells whether the module was closed.
func (g *gen) closed() bool {
	if g.api == nil {
		return false
	}
	for _, m := range wazero.Modules() {
		if m.Universe() == g.api.Universe {
			return m.Closed()
		}
	}
	return false
}

// excused tells whether a call may have been cut off by now.
func (e *env) excused(c *call) bool {
	if e.closing {
		return true
	}
	if c.from != nil && c.from.gone() {
		return true
	}
	for _, m := range e.mods {
		if !m.provides(c.op) {
			continue
		}
		for k, l := range m.gens {
			if l.began == 0 || l.failed || len(m.gens) < 2 || k == 0 && m.gens[1].began > l.done && l.done > 0 {
				continue
			}
			if (l.done == 0 || l.done > c.began) && vsim.NowNs() >= l.at+grace {
				return true
			}
		}
	}
	return false
}

// certain tells whether a call made now must succeed.
func (e *env) certain(op *hlib.Op, from *gen) bool {
	if e.closing {
		return false
	}
	if from != nil && from.done == 0 {
		return false
	}
	loaded := false
	for _, m := range e.mods {
		if !m.provides(op) {
			continue
		}
		for _, g := range m.gens {
			if g.began > 0 && g.drop[op] {
				return false
			}
			loaded = loaded || g.done > 0 && !g.failed
		}
	}
	return loaded
}

// step runs, inside the guest, the next thing it has to do.
func (g *gen) step() {
	if len(g.q) == 0 {
		return
	}
	f := g.q[0]
	g.q[0] = nil
	g.q = g.q[1:]
	f()
}

// later makes the guest do something once it is entered.
func (g *gen) later(delay int64, f func()) {
	vsim.GoHarness(func() {
		if delay > 0 {
			vsim.SleepNs(delay)
		}
		g.q = append(g.q, f)
		if g.done == 0 {
			g.early++
			return
		}
		g.pump()
	})
}

func (g *gen) pump() {
	var md [8]byte
	if g.inst == nil {
		g.e.m.FireAndForget(context.Background(), "verif", "pump "+g.name, payload.New([]byte("pump"), md[:]))
		return
	}
	binary.BigEndian.PutUint32(md[:], g.pumpAt)
	g.hc.FNF(nx.Msg{D: []byte("pump"), M: md[:]})
}

// prepare makes the next version of a module, which may be broken.
func (m *module) prepare(bulk bool) (g *gen, read func() error) {
	e := m.e
	if e.loads >= wazero.Limit {
		return nil, nil
	}
	e.loads++
	g = m.next(bulk)
	source := []byte("\x00asm:" + g.name)
	switch {
	case len(m.gens) > 1 && vsim.Flip(0.1, "load.corrupt"):
		source = source[:4]
		g.broken = true
	case vsim.Flip(0.05, "load.crash"):
		g.broken = true
	}
	if g.broken {
		vsim.Count("fault:broken-module")
	}
	var unreadable error
	if vsim.Flip(0.05, "load.unreadable") {
		unreadable = errors.New("input/output error")
		g.broken = true
		vsim.Count("fault:unreadable-file")
	}
	g.at, g.began = vsim.NowNs(), e.now()
	vsim.Event("load %s broken=%v", g.name, g.broken)
	return g, func() error {
		vsim.SetFile(m.file, source)
		return unreadable
	}
}

// loaded notes that a module has been loaded, or not.
func (g *gen) loaded() {
	g.done = g.e.now()
	vsim.Event("loaded %s failed=%v", g.name, g.failed)
	if g.failed {
		return
	}
	for ; g.early > 0; g.early-- {
		g.pump()
	}
}

// load loads the next version of a module.
func (e *env) load(m *module) *gen {
	if e.closing {
		return nil
	}
	e.loading++
	g, read := m.prepare(false)
	if g == nil {
		e.loading--
		return nil
	}
	e.reading[vsim.Self()] = func(string) error { return read() }
	inst, err := e.m.LoadModule(context.Background(), m.file)
	e.loading--
	g.inst = inst
	if err != nil {
		g.failed = true
		if !g.broken {
			fail("load-failed", "%s can not be loaded: %v", g.name, err)
		}
	} else if g.broken {
		fail("broken-loaded", "%s was loaded although it is broken", g.name)
	} else {
		g.hc = adapt.Caller(context.Background(), inst)
	}
	g.loaded()
	return g
}

// loadAll loads several modules with one call, which fails when one of them is
// broken. Those before it stay loaded.
func (e *env) loadAll(mods []*module) {
	var gens []*gen
	var files []string
	reads := map[string]func() error{}
	broken := -1
	e.loading++
	for _, m := range mods {
		g, read := m.prepare(true)
		if g == nil {
			break
		}
		if g.broken && broken < 0 {
			broken = len(gens)
		}
		gens = append(gens, g)
		files = append(files, m.file)
		reads[m.file] = read
	}
	e.reading[vsim.Self()] = func(file string) error { return reads[file]() }
	err := e.m.LoadModules(context.Background(), files...)
	e.loading--
	if err != nil && broken < 0 {
		fail("load-failed", "%v can not be loaded: %v", files, err)
	}
	if err == nil && broken >= 0 {
		fail("broken-loaded", "%s was loaded although it is broken", gens[broken].name)
	}
	for k, g := range gens {
		if broken < 0 || k < broken {
			if g.api == nil {
				fail("not-loaded", "%s was not started", g.name)
			}
		} else if g.broken || g.api == nil {
			g.failed = true
		}
		g.loaded()
	}
}

// caller makes calls of an operation from outside.
type caller struct {
	m      *mesh.Mesh
	op     *hlib.Op
	shared []byte // metadata that all callers without any use
}

func (c caller) p(m nx.Msg) payload.Payload {
	if len(m.M) == 8 && c.shared != nil {
		m.M = c.shared
	}
	return adapt.P(m)
}

func (c caller) RR(m nx.Msg) nx.Single {
	x := c.m.RequestResponse(context.Background(), c.op.NS, c.op.Name, c.p(m))
	if x == nil {
		x = mono.Error[payload.Payload](errNobody)
	}
	return adapt.Single(x)
}
func (c caller) FNF(m nx.Msg) {
	c.m.FireAndForget(context.Background(), c.op.NS, c.op.Name, c.p(m))
}
func (c caller) RS(m nx.Msg) nx.Seq {
	x := c.m.RequestStream(context.Background(), c.op.NS, c.op.Name, c.p(m))
	if x == nil {
		x = flux.Error[payload.Payload](errNobody)
	}
	return adapt.Seq(x)
}
func (c caller) RC(m nx.Msg, in *nx.Src) nx.Seq {
	x := c.m.RequestChannel(context.Background(), c.op.NS, c.op.Name, c.p(m), adapt.Flux(in))
	if x == nil {
		x = flux.Error[payload.Payload](errNobody)
	}
	return adapt.Seq(x)
}
func (caller) Import(kind int, ns, op string) uint32 { return 0 }

// outside is where calls from outside come from and their answers go to.
func (e *env) outside(op *hlib.Op) *hlib.Side {
	return &hlib.Side{Name: "outside", Call: func() nx.Caller { return caller{e.m, op, e.shared} }, Async: hlib.HostAsync, Host: true, Block: adapt.BlockOne, BlockSeq: adapt.BlockSeq, MaxMsg: 16000}
}

func payloadOf(s string) payload.Payload { return payload.New([]byte(s), nil) }

var nowhere = &hlib.Side{Name: "nowhere", Async: hlib.HostAsync, MaxMsg: 16000}

// newCall plans a call that is made right afterwards.
func (e *env) newCall(p *hlib.Profile, op *hlib.Op, from *gen) *hlib.Inter {
	w := e.loose
	if e.certain(op, from) {
		w = e.w
	}
	side := (*hlib.Side)(nil)
	if from == nil {
		side = e.outside(op)
	} else {
		side = from.side
	}
	i := w.New(p, op.Kind, side, nowhere, op)
	at := uint32(0)
	if from != nil {
		at = from.imports[op]
	} else if vsim.Flip(0.3, "outside.index") {
		at = 77
	}
	i.Named = &at
	c := &call{i: i, op: op, from: from, began: e.now()}
	i.Excuse = func() bool { return e.excused(c) }
	calls[i] = c
	return i
}

// pickImport picks an operation that a module imports.
func (g *gen) pickImport(kinds []int) *hlib.Op {
	var l []*hlib.Op
	for _, op := range g.e.ops {
		if _, ok := g.imports[op]; !ok {
			continue
		}
		for _, k := range kinds {
			if k == op.Kind {
				l = append(l, op)
			}
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[vsim.Choose(len(l), "import.op")]
}

// nest plans a call that a handler makes before it answers.
func (e *env) nest(i *hlib.Inter, p *hlib.Profile) *hlib.Inter {
	for _, m := range e.mods {
		for _, g := range m.gens {
			if g.side == i.To {
				if op := g.pickImport([]int{nx.RR}); op != nil {
					return e.newCall(p, op, g)
				}
			}
		}
	}
	return nil
}

func (e *env) pickOp(kinds []int) *hlib.Op {
	var l []*hlib.Op
	for _, op := range e.ops {
		for _, k := range kinds {
			if k == op.Kind {
				l = append(l, op)
			}
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[vsim.Choose(len(l), "op")]
}

// pickGen picks a module that is or was running.
func (e *env) pickGen() *gen {
	var l []*gen
	for _, m := range e.mods {
		for _, g := range m.gens {
			if g.api != nil && !g.failed && !g.broken && !g.gone() {
				l = append(l, g)
			}
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[vsim.Choose(len(l), "gen")]
}

// call makes a call from outside or from a module.
func (e *env) call(p *hlib.Profile) {
	g := (*gen)(nil)
	if vsim.Flip(0.6, "from.module") {
		g = e.pickGen()
	}
	if g == nil {
		if op := e.pickOp(p.Kinds); op != nil {
			i := e.newCall(p, op, nil)
			i.W().Start(i)
		}
		return
	}
	g.later(0, func() {
		if op := g.pickImport(p.Kinds); op != nil {
			i := e.newCall(p, op, g)
			i.W().Start(i)
		}
	})
}

func (e *env) drive(p *hlib.Profile, n int) {
	for n > 0 {
		k := 1 + vsim.Choose(min(n, 5), "driver.calls")
		n -= k
		pause := vsim.Flip(0.6, "driver.pause")
		vsim.GoHarness(func() {
			for ; k > 0; k-- {
				if pause {
					vsim.SleepNs(int64(vsim.Range(0, 300, "driver.sleep")) * ms)
				}
				if vsim.Flip(0.1, "driver.long") {
					vsim.SleepNs(int64(vsim.Range(0, 8000, "driver.longsleep")) * ms)
				}
				e.call(p)
			}
		})
	}
}

func (e *env) idle() {
	if !vsim.WaitIdle(settle) {
		fail("no-quiescence", "the system is still busy after %d simulated seconds", settle/1000/ms)
	}
}

// finish lets everything come to its end and judges it.
func (e *env) finish() {
	e.idle()
	for k := 0; k < 12 && (e.w.Pending() || e.loose.Pending()); k++ {
		for _, w := range []*hlib.W{e.w, e.loose} {
			w.Release()
			w.Resume()
			e.idle()
		}
	}
	e.w.Check()
	e.loose.Check()
}

func init() { wazero.Limit = zzUniverses }

func main() { hlib.Main("mesh") }
