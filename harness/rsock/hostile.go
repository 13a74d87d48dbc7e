package main

import (
	gocontext "context"
	"errors"
	"io"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/zverif/adapt"
	"github.com/nanobus/iota/go/zverif/evil"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
	context "vsim/scontext"
)

const address = "127.0.0.1:7878"

// hostile is a peer that does not follow the protocol.
type hostile struct{ *evil.Peer }

func newHostile(e *env) *hostile {
	return &hostile{&evil.Peer{Max: maxFrame, Ops: func(kind int) (l []uint32) {
		for _, op := range e.ops[kind] {
			l = append(l, op.Index)
		}
		return
	}}}
}

// play speaks on c until it has enough, then ends in some way.
func (h *hostile) play(c *vsim.SimConn, handshake bool) {
	if !vsim.Flip(0.15, "evil.noread") {
		vsim.GoHarness(func() {
			b := make([]byte, 4096)
			for {
				if _, err := c.Read(b); err != nil {
					return
				}
			}
		})
	}
	put := func(b []byte) bool {
		vsim.Event("hostile %x", b[:min(len(b), 40)])
		_, err := c.Write(b)
		return err == nil
	}
	if handshake {
		switch vsim.Choose(8, "evil.handshake") {
		case 0: // none
		case 1:
			b := h.Mutate(h.Setup())
			put(evil.Wrap(b, len(b)))
		case 2:
			put(h.Chunk())
		default:
			s := &frames.Setup{MinorVersion: 2, Data: invoke.GetOperationsTable().ToBytes()}
			b := evil.Encode(s)
			put(evil.Wrap(b, len(b)))
		}
	}
	for k := vsim.Choose(14, "evil.frames"); k > 0; k-- {
		if !put(h.Chunk()) {
			break
		}
		if vsim.Flip(0.3, "evil.pause") {
			vsim.SleepNs(int64(vsim.Range(0, 100, "evil.ms")) * ms)
		}
	}
	switch vsim.Choose(4, "evil.end") {
	case 0:
		_ = c.Close()
	case 1:
		c.HalfEOF()
	case 2:
		c.Reset()
	}
}

// hostileClient: a client that breaks the protocol beside good ones.
func hostileClient() {
	e := newEnv()
	e.w.Wide, e.w.Strict, e.w.Scatter = "C08", false, true
	e.export(3)
	healthyNet()
	e.serve()
	e.connectAll(2)
	e.w.Phantom = e.peers[0].ss
	p := swarm(hlib.DefaultProfile())
	e.idle()
	base := vsim.NumG()
	e.drive(e.w, &p, e.peers, 1+vsim.Choose(8, "calls"))
	muted := e.w.Fork()
	muted.Mute = true
	e.onAccept = func(c invoke.Caller) {
		// the server calls the hostile client as well
		s := &hlib.Side{Name: "server", Async: hlib.HostAsync, Host: true, Full: e.peers[0].ss.Full, Block: adapt.BlockOne, BlockSeq: adapt.BlockSeq}
		caller := adapt.Caller(e.ctx, c)
		s.Call = func() nx.Caller { return caller }
		t := &hlib.Side{Name: "hostile", Async: hlib.HostAsync, Host: true}
		for _, k := range []int{nx.RR, nx.FNF, nx.RS, nx.RC} {
			caller.Import(k, "a", "op0")
		}
		for k := vsim.Choose(4, "evil.servercalls"); k > 0; k-- {
			kind := 1 + vsim.Choose(4, "evil.callkind")
			i := muted.New(&p, kind, s, t, e.op(kind))
			vsim.GoHarness(func() { muted.Start(i) })
		}
	}
	var conns []*vsim.SimConn
	for k := 1 + vsim.Choose(3, "hostiles"); k > 0; k-- {
		vsim.GoHarness(func() {
			if vsim.Flip(0.5, "evil.later") {
				vsim.SleepNs(int64(vsim.Range(0, 300, "evil.start")) * ms)
			}
			c, err := vsim.DialTCP(gocontext.Background(), address)
			if err != nil {
				hlib.Fail("C08", "refused", "the server refuses connections: %v", err)
				return
			}
			conns = append(conns, c.(*vsim.SimConn))
			h := newHostile(e)
			h.play(c.(*vsim.SimConn), true)
		})
	}
	e.idle()
	e.finish(e.w)
	// whatever happened, the server still accepts connections
	e.onAccept = nil
	for _, c := range conns {
		_ = c.Close()
	}
	e.idle()
	if i, why := muted.Hung(); i != nil {
		hlib.Fail("C08", "call-hangs", "the hostile connections are closed, but of %s %s", i, why)
	}
	if i, why := e.w.Abandoned(); i != nil {
		hlib.Fail("C08", "handler-hangs", "the hostile connections are closed, but of %s %s", i, why)
	}
	if n := vsim.NumG(); n > base {
		hlib.Fail("C08", "goroutines", "%d goroutines are left of hostile connections: %v", n-base, vsim.Leaked())
	}
	q := e.connect(false)
	e.drive(e.w, &p, append(e.peers, q), 3)
	e.finish(e.w)
}

// hostileServer: a server that breaks the protocol.
func hostileServer() {
	e := newEnv()
	e.w.Wide, e.w.Strict, e.w.Scatter = "C08", false, true
	e.export(3)
	healthyNet()
	l, err := vsim.ListenTCP(gocontext.Background(), address)
	if err != nil {
		hlib.Bad("listen: %v", err)
	}
	base := vsim.NumG()
	p := e.dial()
	var sc *vsim.SimConn
	vsim.GoHarness(func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		sc = c.(*vsim.SimConn)
		h := newHostile(e)
		h.play(sc, false)
	})
	if err := p.setup(vsim.Flip(0.5, "background")); err != nil {
		hlib.Fail("C08", "setup-failed", "the client could not connect: %v", err)
	}
	side := &hlib.Side{Name: p.name, Async: hlib.HostAsync, Host: true, Block: adapt.BlockOne, BlockSeq: adapt.BlockSeq}
	caller := adapt.Caller(p.ctx, p.h)
	side.Call = func() nx.Caller { return caller }
	e.w.Phantom = side
	pr := swarm(hlib.DefaultProfile())
	muted := e.w.Fork()
	muted.Mute = true
	for k := vsim.Choose(6, "evil.clientcalls"); k > 0; k-- {
		kind := 1 + vsim.Choose(4, "evil.callkind")
		i := muted.New(&pr, kind, side, side, e.op(kind))
		vsim.GoHarness(func() { muted.Start(i) })
	}
	e.idle()
	if sc != nil {
		_ = sc.Close()
	}
	e.idle()
	if !p.done {
		hlib.Fail("C08", "client-hangs", "the client does not notice that the hostile server closed the connection")
	}
	p.cancel()
	_ = l.Close()
	e.idle()
	if i, why := muted.Hung(); i != nil {
		hlib.Fail("C08", "call-hangs", "the hostile connection is closed, but of %s %s", i, why)
	}
	if i, why := e.w.Abandoned(); i != nil {
		hlib.Fail("C08", "handler-hangs", "the hostile connection is closed, but of %s %s", i, why)
	}
	if n := vsim.NumG(); n > base {
		hlib.Fail("C08", "goroutines", "%d goroutines are left of the hostile connection: %v", n-base, vsim.Leaked())
	}
	// the process goes on: a good server and a good client
	e.peers = nil
	e.w.Phantom = nil
	e.serve()
	e.connect(false)
	e.drive(e.w, &pr, e.peers, 3)
	e.finish(e.w)
}

// corruption: one connection flips bits, the others are sound.
func corruption() {
	e := newEnv()
	e.w.Wide, e.w.Strict, e.w.Scatter = "C08", false, true
	e.export(3)
	healthyNet()
	e.serve()
	e.connectAll(2)
	e.w.Phantom = e.peers[0].ss
	p := swarm(hlib.DefaultProfile())
	e.idle()
	base := vsim.NumG()
	bad := e.connect(vsim.Flip(0.4, "background"))
	vsim.NetCfg().CorruptP = []float64{0.02, 0.1, 0.5}[vsim.Choose(3, "corruption")]
	vsim.NetCfg().Faulty = func(c *vsim.SimConn) bool { return c == bad.cconn || c == bad.sconn }
	muted := e.w.Fork()
	muted.Mute = true
	e.drive(muted, &p, []*peer{bad}, 1+vsim.Choose(10, "badcalls"))
	e.drive(e.w, &p, e.peers[:len(e.peers)-1], 1+vsim.Choose(8, "calls"))
	e.idle()
	vsim.NetCfg().CorruptP = 0
	_ = bad.cconn.Close()
	e.idle()
	for k := 0; k < 12 && muted.Pending(); k++ {
		muted.Release()
		muted.Resume()
		e.idle()
	}
	e.peers = e.peers[:len(e.peers)-1]
	e.finish(e.w)
	bad.cancel()
	_ = bad.sconn.Close()
	e.idle()
	if !bad.done {
		hlib.Fail("C08", "client-hangs", "the client of the corrupted connection did not end")
	}
	if i, why := muted.Hung(); i != nil {
		hlib.Fail("C08", "call-hangs", "the corrupted connection is closed, but of %s %s", i, why)
	}
	if i, why := e.w.Abandoned(); i != nil {
		hlib.Fail("C08", "handler-hangs", "the corrupted connection is closed, but of %s %s", i, why)
	}
	if n := vsim.NumG(); n > base {
		hlib.Fail("C08", "goroutines", "%d goroutines are left of the corrupted connection: %v", n-base, vsim.Leaked())
	}
	e.connect(false)
	e.drive(e.w, &p, e.peers, 3)
	e.finish(e.w)
}

// stray: well-formed frames for streams that are not known are ignored.
func stray() {
	e := newEnv()
	e.w.Wide = "C08"
	e.export(3)
	healthyNet()
	e.serve()
	e.connectAll(2)
	p := swarm(hlib.DefaultProfile())
	e.drive(e.w, &p, e.peers, 1+vsim.Choose(10, "calls"))
	for k := 1 + vsim.Choose(3, "strays"); k > 0; k-- {
		q := e.peers[vsim.Choose(len(e.peers), "stray.peer")]
		send := q.h.SendFrame
		if vsim.Flip(0.5, "stray.side") {
			send = e.accepted[q.n].(*handler.Handler).SendFrame
		}
		vsim.GoHarness(func() {
			for n := 1 + vsim.Choose(8, "stray.frames"); n > 0; n-- {
				id := 1<<30 + uint32(vsim.Choose(4000, "stray.id"))
				if vsim.Flip(0.1, "stray.zero") {
					id = 0
				}
				var f frames.Frame
				switch vsim.Choose(5, "stray.type") {
				case 0:
					f = &frames.RequestN{StreamID: id, N: uint32(vsim.Choose(10, "stray.n"))}
				case 1:
					f = &frames.Cancel{StreamID: id}
				case 2:
					f = &frames.Error{StreamID: id, Data: "stray"}
				default:
					f = &frames.Payload{StreamID: id, Data: []byte("stray"), Next: vsim.Flip(0.6, "stray.next"), Complete: vsim.Flip(0.5, "stray.complete")}
				}
				vsim.Count("hostile-stray-frame")
				if err := send(f); err != nil {
					hlib.Fail("C08", "stray-ended", "sending a stray frame failed: %v", err)
				}
				vsim.SleepNs(int64(vsim.Range(0, 60, "stray.pause")) * ms)
			}
		})
	}
	e.finish(e.w)
	for _, q := range e.peers {
		if q.done {
			hlib.Fail("C08", "stray-ended", "%s's connection ended: %v", q.name, q.err)
		}
	}
}

var _ = context.Background
var _ = io.EOF
var _ = errors.New

func init() {
	hlib.Register("C08", "hostile-client", 5, hostileClient)
	hlib.Register("C08", "hostile-server", 3, hostileServer)
	hlib.Register("C08", "corruption", 2, corruption)
	hlib.Register("C08", "stray", 2, stray)
}
