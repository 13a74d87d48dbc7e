package main

import (
	gocontext "context"
	"errors"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zverif/evil"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
	context "vsim/scontext"
)

var errListen = errors.New("address already in use")

// lifecycle: start, accept, handshake and close in every order.
func lifecycle() {
	e := newEnv()
	e.w.Lossy = true
	e.export(2)
	healthyNet()
	if vsim.Flip(0.3, "accepterr") {
		vsim.NetCfg().AcceptErrP = 0.3
	}
	listenFails := vsim.Flip(0.1, "listenerr")
	if listenFails {
		vsim.SetListenError(errListen)
	}
	e.ctx, e.cancel = context.WithCancel(side("server"))
	accepts := 0
	var closed bool // somebody has begun to close the server
	e.srv = rsocket.NewServer(func(ctx context.Context, c invoke.Caller, onClose func(*rsocket.Transport)) {
		accepts++
		e.accepted = append(e.accepted, c)
		vsim.Event("accepted %d", accepts)
		if vsim.Flip(0.2, "acceptor.slow") {
			vsim.SleepNs(int64(vsim.Range(1, 200, "acceptor.ms")) * ms)
		}
	})
	end := func() {
		closed = true
		switch vsim.Choose(3, "close.how") {
		case 0, 1:
			vsim.Event("close")
			_ = e.srv.Close()
		case 2:
			vsim.Event("cancel")
			e.cancel()
		}
	}
	if vsim.Flip(0.1, "closebefore") {
		end()
	}
	notes := vsim.Make[chan bool](vsim.Choose(2, "notes.cap"))
	vsim.GoHarness(func() {
		for {
			v, ok := vsim.Recv2[chan bool, bool](notes)
			if !ok {
				return
			}
			vsim.Event("notified %v", v)
			e.notes = append(e.notes, v)
		}
	})
	vsim.GoHarness(func() {
		if vsim.Flip(0.3, "listen.later") {
			vsim.SleepNs(int64(vsim.Range(0, 20, "listen.ms")) * ms)
		}
		e.err = e.srv.Listen(e.ctx, notes)
		e.returned = true
		vsim.Event("listen returned %v", e.err)
	})
	// clients come and go
	type cl struct {
		p    *peer
		raw  *vsim.SimConn
		err  error
		over bool
	}
	var clients []*cl
	pr := hlib.DefaultProfile()
	n := vsim.Choose(5, "clients")
	if vsim.Flip(0.02, "crowd") {
		n = 5 + vsim.Choose(100, "crowd.clients")
	}
	for k := n; k > 0; k-- {
		c := &cl{}
		clients = append(clients, c)
		p := e.dial()
		rawConn := vsim.Flip(0.25, "rawclient")
		vsim.GoHarness(func() {
			vsim.SleepNs(int64(vsim.Range(0, 100, "client.at")) * ms)
			if rawConn { // connects, perhaps says something, and hangs around
				x, err := vsim.DialTCP(gocontext.Background(), address)
				if err != nil {
					c.over = true
					return
				}
				c.raw = x.(*vsim.SimConn)
				if vsim.Flip(0.5, "raw.partial") {
					b := evil.Encode(&frames.Setup{MinorVersion: 2, Data: invoke.GetOperationsTable().ToBytes()})
					b = evil.Wrap(b, len(b))
					_, _ = c.raw.Write(b[:vsim.Choose(len(b), "raw.cut")])
				}
				if vsim.Flip(0.5, "raw.close") {
					vsim.SleepNs(int64(vsim.Range(0, 100, "raw.ms")) * ms)
					_ = c.raw.Close()
				}
				return
			}
			c.p = p
			t, err := rsocket.NewClient(p.ctx, p.h)
			if err != nil {
				c.err, c.over = err, true
				return
			}
			p.t = t
			if vsim.Flip(0.1, "client.closeearly") {
				_ = t.Close()
			}
			_ = t.Send(&frames.Setup{MinorVersion: 2, Data: invoke.GetOperationsTable().ToBytes()}, true)
			vsim.GoHarness(func() {
				p.err = t.Start(p.ctx)
				p.done = true
				c.over = true
			})
			if vsim.Flip(0.5, "client.calls") {
				e.sides(p, p.h)
				for n := 1 + vsim.Choose(3, "client.ncalls"); n > 0; n-- {
					kind := 1 + vsim.Choose(4, "kind")
					i := e.w.New(&pr, kind, p.cs, p.ss, e.op(kind))
					vsim.GoHarness(func() { e.w.Start(i) })
				}
			}
			if vsim.Flip(0.4, "client.leaves") {
				vsim.SleepNs(int64(vsim.Range(0, 200, "client.stay")) * ms)
				switch vsim.Choose(3, "client.how") {
				case 0:
					p.cancel()
				case 1:
					_ = t.Close()
					_ = t.Close()
				case 2:
					if cs := vsim.Conns(); len(cs) > 0 {
						cs[vsim.Choose(len(cs), "client.which")].Reset()
					}
				}
			}
		})
	}
	for k := vsim.Choose(3, "closers"); k > 0; k-- {
		at := int64(vsim.Range(0, 150, "close.at")) * ms
		vsim.GoHarness(func() {
			vsim.SleepNs(at)
			end()
		})
	}
	e.idle()
	if !closed {
		switch {
		case listenFails:
			if !e.returned || e.err == nil {
				hlib.Fail("C10", "listen-error", "listening failed but Listen returned=%v with %v", e.returned, e.err)
			}
			if len(e.notes) != 1 || e.notes[0] {
				hlib.Fail("C10", "notify", "listening failed but readiness was reported as %v", e.notes)
			}
		default:
			if e.returned {
				hlib.Fail("C10", "listen-ended", "Listen returned %v although nobody closed the server", e.err)
			}
			if len(e.notes) != 1 || !e.notes[0] {
				hlib.Fail("C10", "notify", "the server listens but readiness was reported as %v", e.notes)
			}
			// still open for business
			q := e.dial()
			before := accepts
			if err := q.setup(false); err != nil {
				hlib.Fail("C10", "refused", "an open server refuses connections: %v", err)
			}
			e.idle()
			if accepts != before+1 || q.done {
				hlib.Fail("C10", "not-accepted", "a client of an open server was accepted %d times, ended=%v (%v)", accepts-before, q.done, q.err)
			}
			if vsim.Flip(0.5, "quitfirst") {
				q.cancel()
				e.idle()
				if !q.done {
					hlib.Fail("C10", "client-hangs", "the client's context ended but its transport did not")
				}
			}
		}
		end()
	}
	e.idle()
	if !e.returned {
		hlib.Fail("C10", "listen-hangs", "the server was closed but Listen does not return")
	}
	if len(e.notes) != 1 {
		hlib.Fail("C10", "notify", "readiness was reported %d times: %v", len(e.notes), e.notes)
	}
	for _, l := range vsim.Listeners() {
		if !l.Closed() {
			hlib.Fail("C10", "still-listening", "the server was closed but its listener was not")
		}
	}
	for _, c := range vsim.Conns() {
		if c.Server && !c.Closed() {
			hlib.Fail("C10", "connection-open", "the server was closed but its connection %d was not", c.ID)
		}
	}
	if _, err := rsocket.NewClient(side("late"), handler.New(side("late"), handler.ClientMode)); err == nil {
		hlib.Fail("C10", "still-listening", "a closed server still accepts connections")
	}
	// closing again is harmless
	for k := vsim.Choose(3, "closeagain"); k > 0; k-- {
		_ = e.srv.Close()
	}
	// what has ended does not need the end of its context to let go
	longlived := vsim.Flip(0.5, "longlived")
	if !longlived {
		e.cancel()
	}
	for _, c := range clients {
		if c.raw != nil {
			_ = c.raw.Close()
		}
		if c.p != nil && c.p.t != nil && !c.p.done {
			hlib.Fail("C10", "client-hangs", "the server is closed but client %s goes on", c.p.name)
		}
	}
	e.idle()
	for k := 0; k < 8 && e.w.Pending(); k++ {
		e.w.Release()
		e.w.Resume()
		e.idle()
	}
	if longlived {
		if l := vsim.Leaked(); len(l) > 0 {
			hlib.Fail("C10", "leak", "everything has ended except for the contexts but %d goroutine(s) are left: %v", len(l), l)
		}
		e.cancel()
		e.idle()
	}
	if l := vsim.Leaked(); len(l) > 0 {
		hlib.Fail("C10", "leak", "everything has ended but %d goroutine(s) are left: %v", len(l), l)
	}
	vsim.Close(notes)
}

// churn: an open server keeps nothing of connections that have ended.
func churn() {
	e := newEnv()
	e.w.Lossy = true
	e.export(2)
	healthyNet()
	e.serve()
	e.idle()
	base := len(vsim.Leaked())
	pr := swarm(hlib.DefaultProfile())
	for round := 2 + vsim.Choose(3, "rounds"); round > 0; round-- {
		e.peers = nil
		n := 1 + vsim.Choose(3, "clients")
		if vsim.Flip(0.02, "crowd") {
			n = 4 + vsim.Choose(80, "crowd.clients")
		}
		for k := n; k > 0; k-- {
			e.connect(vsim.Flip(0.4, "background"))
		}
		e.drive(e.w, &pr, e.peers, vsim.Choose(6, "calls"))
		if vsim.Flip(0.5, "letend") {
			e.idle()
		}
		if len(vsim.Leaked()) <= base {
			hlib.Fail("C10", "listen-ended", "no goroutine serves the connections")
		}
		for _, q := range e.peers {
			switch vsim.Choose(6, "leave") {
			case 0:
				q.cconn.Reset()
			case 1:
				q.cconn.HalfEOF()
			case 2:
				q.sconn.HalfEOF()
			case 3:
				_ = q.cconn.Close()
			case 4:
				_ = q.sconn.Close()
			case 5:
				q.cancel()
				if q.t == nil {
					_ = q.cconn.Close()
				}
			}
		}
		e.idle()
		for k := 0; k < 8 && e.w.Pending(); k++ {
			e.w.Release()
			e.w.Resume()
			e.idle()
		}
		for _, q := range e.peers {
			if !q.done {
				hlib.Fail("C10", "client-hangs", "%s does not notice that its connection ended", q.name)
			}
			if vsim.Flip(0.5, "shortlived") {
				q.cancel()
			}
			if !q.sconn.Closed() || !q.cconn.Closed() {
				hlib.Fail("C10", "connection-open", "the connection of %s ended but was not closed (client %v, server %v)", q.name, q.cconn.Closed(), q.sconn.Closed())
			}
		}
		e.idle()
		if l := vsim.Leaked(); len(l) > base {
			hlib.Fail("C10", "leak", "all connections have ended but %d goroutine(s) are left: %v", len(l)-base, l)
		}
	}
	if e.returned {
		hlib.Fail("C10", "listen-ended", "Listen returned %v although nobody closed the server", e.err)
	}
}

var _ = nx.RR

func init() {
	hlib.Register("C10", "lifecycle", 6, lifecycle)
	hlib.Register("C10", "churn", 3, churn)
}
