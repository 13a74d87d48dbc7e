// The rsock world runs RSocket servers and clients of the code under test over
// a simulated network.
package main

import (
	"fmt"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zverif/adapt"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
	context "vsim/scontext"
)

const (
	ms = int64(1000000)
	// settle is how long anything may take that is bound to happen.
	settle = 4 * 3600 * 1000 * ms
)

// env is one server with its clients.
type env struct {
	w        *hlib.W
	ops      map[int][]*hlib.Op
	srv      rsocket.ServerTransport
	ctx      context.Context
	cancel   context.CancelFunc
	notes    []bool
	returned bool
	err      error
	accepted []invoke.Caller
	onAccept func(c invoke.Caller)
	peers    []*peer
	hist     []*hlib.W // one history for each connection
}

// peer is a client and its connection.
type peer struct {
	n          int
	name       string
	cs, ss     *hlib.Side
	h          *handler.Handler
	t          *rsocket.Transport
	ctx        context.Context
	cancel     context.CancelFunc
	cc         nx.Caller // client towards server
	sc         nx.Caller // server towards client
	cconn      *vsim.SimConn
	sconn      *vsim.SimConn
	done       bool
	err        error
	background bool
	w          *hlib.W // history of the present connection
	stop       func()  // ends what serves the connection
}

func side(v string) context.Context {
	return context.WithValue(context.Background(), nx.SideKey{}, v)
}

// export registers the operations; both ends of all connections share them.
func (e *env) export(max int) {
	x := adapt.Exports()
	e.ops = map[int][]*hlib.Op{}
	ns := []string{"a", "a.b", "greeting.v1", ""}
	next := map[int]uint32{}
	used := map[string]bool{}
	total := 4 + vsim.Choose(max*4, "ops")
	for k := 0; k < total; k++ {
		kind := k + 1
		if k >= 4 {
			kind = 1 + vsim.Choose(4, "op.kind")
		}
		op := &hlib.Op{Kind: kind, NS: ns[vsim.Choose(len(ns), "op.ns")], Name: fmt.Sprintf("op%d", vsim.Choose(4, "op.name")), Index: next[kind]}
		key := fmt.Sprint(kind, op.NS, "/", op.Name)
		if used[key] {
			op.Name = fmt.Sprintf("x%d", k)
			key = fmt.Sprint(kind, op.NS, "/", op.Name)
		}
		used[key] = true
		next[kind]++
		switch kind {
		case nx.RR:
			x.RR(op.NS, op.Name, e.w.HRR(op))
		case nx.FNF:
			x.FNF(op.NS, op.Name, e.w.HFNF(op))
		case nx.RS:
			x.RS(op.NS, op.Name, e.w.HRS(op))
		case nx.RC:
			x.RC(op.NS, op.Name, e.w.HRC(op))
		}
		e.ops[kind] = append(e.ops[kind], op)
		if vsim.Flip(0.2, "op.import") {
			x.Import(1+vsim.Choose(4, "imp.kind"), op.NS, fmt.Sprintf("op%d", vsim.Choose(4, "imp.name")))
		}
	}
}

func (e *env) op(kind int) *hlib.Op {
	l := e.ops[kind]
	return l[vsim.Choose(len(l), "op")]
}

func newEnv() *env {
	e := &env{w: hlib.NewW()}
	hlib.NestOp = func(w *hlib.W, from, to *hlib.Side, kind int) *hlib.Op { return e.op(kind) }
	return e
}

// serve starts the server and waits until it listens.
func (e *env) serve() {
	e.ctx, e.cancel = context.WithCancel(side("server"))
	e.srv = rsocket.NewServer(func(ctx context.Context, c invoke.Caller, onClose func(*rsocket.Transport)) {
		e.accepted = append(e.accepted, c)
		if e.onAccept != nil {
			e.onAccept(c)
		}
	})
	n := vsim.Make[chan bool](1)
	vsim.GoHarness(func() {
		e.err = e.srv.Listen(e.ctx, n)
		e.returned = true
	})
	if !vsim.Recv(n) {
		hlib.Fail(hlib.Active(), "setup-failed", "server does not listen: %v", e.err)
	}
}

// dial makes a client and its connection, without the handshake.
func (e *env) dial() *peer {
	p := &peer{n: len(e.peers)}
	p.name = fmt.Sprintf("client%d", p.n)
	p.ctx, p.cancel = context.WithCancel(side(p.name))
	p.h = handler.New(p.ctx, handler.ClientMode)
	e.peers = append(e.peers, p)
	return p
}

func (p *peer) setup(background bool) error {
	p.background = background
	p.t, p.done, p.err = nil, false, nil
	p.stop = func() { _ = p.cconn.Close() }
	known := len(vsim.Conns())
	if background {
		vsim.GoHarness(func() {
			p.err = rsocket.Connect(p.h)
			p.done = true
		})
		for len(vsim.Conns()) < known+2 && !p.done {
			vsim.SleepNs(ms / 10)
		}
	} else {
		t, err := rsocket.NewClient(p.ctx, p.h)
		if err != nil {
			return err
		}
		p.t = t
		ctx, stop := context.WithCancel(p.ctx)
		p.stop = stop
		_ = t.Send(&frames.Setup{MajorVersion: 0, MinorVersion: 2, Data: invoke.GetOperationsTable().ToBytes()}, true)
		vsim.GoHarness(func() {
			p.err = t.Start(ctx)
			stop()
			p.done = true
		})
	}
	c := vsim.Conns()
	if len(c) < known+2 {
		return fmt.Errorf("no connection: %v", p.err)
	}
	p.cconn, p.sconn = c[known], c[known+1]
	return nil
}

// connect adds a client and waits until the server accepted it.
func (e *env) connect(background bool) *peer {
	p := e.dial()
	before := len(e.accepted)
	if err := p.setup(background); err != nil {
		hlib.Fail(hlib.Active(), "setup-failed", "%s can not connect: %v", p.name, err)
		return p
	}
	if !e.await(before) {
		hlib.Fail(hlib.Active(), "setup-failed", "%s was never accepted", p.name)
	}
	e.sides(p, e.accepted[before])
	return p
}

// await waits until the server has accepted more clients than before. How long
// that takes says nothing: time also passes while the server is working.
func (e *env) await(before int) bool {
	for k := 0; len(e.accepted) == before && k < 1000; k++ {
		vsim.SleepNs(10 * ms)
	}
	if len(e.accepted) == before {
		e.idle()
	}
	return len(e.accepted) > before
}

func (e *env) sides(p *peer, c invoke.Caller) {
	p.cc = adapt.Caller(p.ctx, p.h)
	p.sc = adapt.Caller(e.ctx, c)
	full := [5]bool{nx.RS: true, nx.RC: true}
	p.cs = &hlib.Side{Name: p.name, Call: func() nx.Caller { return p.cc }, Async: hlib.HostAsync, Host: true, Full: full, Block: adapt.BlockOne, BlockSeq: adapt.BlockSeq}
	p.ss = &hlib.Side{Name: "server", Call: func() nx.Caller { return p.sc }, Async: hlib.HostAsync, Host: true, Full: full, Block: adapt.BlockOne, BlockSeq: adapt.BlockSeq}
	past := func(kind int) uint32 { return uint32(len(e.ops[kind])) }
	p.cs.Past, p.ss.Past = past, past
}

// healthyNet draws a network that loses nothing.
func healthyNet() {
	c := vsim.NetConfig{}
	if vsim.Flip(0.5, "net.seg") {
		c.SegP = 0.5
		if vsim.Flip(0.5, "net.tiny") {
			c.TinyP = 0.7
		}
	}
	switch vsim.Choose(4, "net.lat") {
	case 1:
		c.LatMaxNs = ms
	case 2:
		c.LatMaxNs = 200 * ms
	case 3:
		c.LatMaxNs = 5 * ms
		c.StallP, c.StallNs = 0.05, 2000*ms
	}
	if vsim.Flip(0.3, "net.short") {
		c.ShortP = 0.4
	}
	if vsim.Flip(0.3, "net.window") {
		c.Window = []int{64, 500, 4096}[vsim.Choose(3, "net.windowsize")]
	}
	vsim.SetNet(c)
}

// drive makes n calls from both sides of the peers.
func (e *env) drive(w *hlib.W, p *hlib.Profile, peers []*peer, n int) {
	for n > 0 {
		k := 1 + vsim.Choose(min(n, 5), "driver.calls")
		n -= k
		q := peers[vsim.Choose(len(peers), "driver.peer")]
		fromServer := vsim.Flip(0.4, "driver.side")
		pause := vsim.Flip(0.4, "driver.pause")
		vsim.GoHarness(func() {
			for ; k > 0; k-- {
				if pause {
					vsim.SleepNs(int64(vsim.Range(0, 300, "driver.sleep")) * ms)
				}
				w.Start(e.plan(w, p, q, fromServer))
			}
		})
	}
}

func (e *env) plan(w *hlib.W, p *hlib.Profile, q *peer, fromServer bool) *hlib.Inter {
	from, to := q.cs, q.ss
	if fromServer {
		from, to = to, from
	}
	kind := p.Kinds[vsim.Choose(len(p.Kinds), "kind")]
	i := w.New(p, kind, from, to, e.op(kind))
	if vsim.Flip(p.Bad, "bad") || kind == nx.FNF && vsim.Flip(p.BadFNF, "badfnf") {
		i.Spoil()
	}
	return i
}

// idle waits until nothing happens any more.
func (e *env) idle() {
	if !vsim.WaitIdle(settle) {
		hlib.Fail(hlib.Active(), "no-quiescence", "the system is still busy after %d simulated seconds", settle/1000/ms)
	}
}

// finish lets everything come to its end and judges it.
func (e *env) finish(w *hlib.W) {
	e.idle()
	for k := 0; k < 12 && w.Pending(); k++ {
		w.Release()
		w.Resume()
		e.idle()
	}
	w.Check()
}

func (e *env) connectAll(max int) []*peer {
	n := 1 + vsim.Choose(max, "clients")
	for k := 0; k < n; k++ {
		e.connect(vsim.Flip(0.4, "background"))
	}
	return e.peers
}

// swarm varies a profile from run to run.
func swarm(p hlib.Profile) hlib.Profile {
	off := func(x *float64, label string) {
		switch vsim.Choose(4, "swarm."+label) {
		case 0:
		case 1:
			*x = 0
		case 2:
			*x = min(0.9, *x*3)
		}
	}
	off(&p.Cancel, "cancel")
	off(&p.Err, "err")
	off(&p.Stall, "stall")
	off(&p.Demand, "demand")
	off(&p.Eager, "eager")
	off(&p.Nested, "nested")
	if vsim.Flip(0.2, "swarm.big") {
		p.MaxData = 3000
		p.MaxItems = 4
	}
	if vsim.Flip(0.2, "swarm.many") {
		p.MaxItems = 40
		p.MaxData = 24
	}
	return p
}

func main() { hlib.Main("rsock") }
