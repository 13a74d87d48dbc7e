package main

import (
	"errors"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/zverif/adapt"
	"github.com/nanobus/iota/go/zverif/evilguest"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
)

// hostile is a guest that does not follow the protocol.
type hostile struct {
	*evilguest.Guest
	inst    *host.Instance
	active  int // handlers of the host at work for this guest
	uploads int // inputs of channels that have not ended
}

func newHostile(e *env, starting bool) *hostile {
	h := &hostile{Guest: evilguest.New("hostile", func(int) []uint32 { return []uint32{0, 1, 2, 3} })}
	h.Table = h.table
	if starting {
		h.Faulty = 0.5
	} else {
		h.Faulty = []float64{0, 0.03}[vsim.Choose(2, "evil.faulty")]
	}
	return h
}

// table is an operation table.
func (h *hostile) table() []byte {
	var t operations.Table
	index := func() uint32 {
		if vsim.Flip(0.1, "evil.index") {
			return 1<<32 - 1
		}
		return uint32(vsim.Choose(6, "evil.index"))
	}
	for n := vsim.Choose(8, "evil.ops"); n > 0; n-- {
		o := operations.Operation{Index: index(), Type: operations.RequestType(vsim.Choose(6, "evil.optype")), Direction: operations.Direction(vsim.Choose(4, "evil.opdir")), Namespace: "a", Operation: "op" + string(rune('0'+vsim.Choose(4, "evil.opname")))}
		t = append(t, o)
	}
	b := t.ToBytes()
	if vsim.Flip(0.3, "evil.table") {
		b = h.Mutate(b)
	}
	return b
}

// handlers makes the host serve the guest.
func (h *hostile) handlers() {
	set := func(kind int, idx uint32) {
		if idx > 64 && idx != 1<<32-1 {
			return
		}
		switch kind {
		case nx.RR:
			h.inst.SetRequestResponseHandler(idx, adapt.HRR(h.one))
		case nx.FNF:
			h.inst.SetFireAndForgetHandler(idx, adapt.HFNF(func(nx.Ctx, nx.Msg) {
				if vsim.Flip(0.2, "served.slow") {
					vsim.SleepNs(int64(vsim.Range(1, 900, "served.ms")) * ms)
				}
			}))
		case nx.RS:
			h.inst.SetRequestStreamHandler(idx, adapt.HRS(func(nx.Ctx, nx.Msg) nx.Src { return h.many() }))
		case nx.RC:
			h.inst.SetRequestChannelHandler(idx, adapt.HRC(func(_ nx.Ctx, _ nx.Msg, in nx.Seq) nx.Src {
				h.upload(in)
				return h.many()
			}))
		}
	}
	for kind := nx.RR; kind <= nx.RC; kind++ {
		for n := vsim.Choose(4, "served.ops"); n > 0; n-- {
			set(kind, uint32(n-1))
		}
	}
	for _, o := range h.inst.Operations() {
		if o.Direction == operations.Import {
			set(int(o.Type), o.Index)
		}
	}
}

func (h *hostile) one(nx.Ctx, nx.Msg) nx.OneSrc {
	h.active++
	return nx.OneSrc{Kind: nx.OneCreate, Ready: func(k nx.OneSink) {
		vsim.GoHarness(func() {
			vsim.SleepNs(int64(vsim.Choose(2000, "served.ms")) * ms)
			h.active--
			if vsim.Flip(0.3, "served.err") {
				k.Error(errors.New("served"))
			} else {
				k.Success(nx.Msg{D: []byte("served")})
			}
		})
	}}
}

// many is a stream that ends by itself.
func (h *hostile) many() nx.Src {
	h.active++
	demand, over := 0, false
	src := nx.Src{Kind: nx.SrcCreate}
	src.OnReq = func(n int) { demand = min(demand+min(n, 1000), 1000) }
	src.OnCan = func() { over = true }
	src.Ready = func(k nx.Sink) {
		vsim.GoHarness(func() {
			for n := vsim.Choose(12, "served.items"); n > 0 && !over; n-- {
				vsim.SleepNs(int64(vsim.Choose(300, "served.ms")) * ms)
				if demand > 0 && !over {
					demand--
					k.Next(nx.Msg{D: []byte("item")})
				}
			}
			h.active--
			if over {
				return
			}
			if vsim.Flip(0.3, "served.err") {
				k.Error(errors.New("served"))
			} else {
				k.Complete()
			}
		})
	}
	return src
}

// upload takes the input of a channel.
func (h *hostile) upload(in nx.Seq) {
	if in == nil || vsim.Flip(0.2, "served.ignore") {
		return
	}
	left := vsim.Choose(6, "served.take")
	var sub nx.Sub
	h.uploads++
	over := false
	end := func() {
		if !over {
			over = true
			h.uploads--
		}
	}
	r := nx.Rcv{NoRequest: true, Complete: end, Error: func(error) { end() }, OnRequest: func(s nx.Sub) {
		sub = s
		s.Request(1 + vsim.Choose(3, "served.ask"))
	}}
	r.Next = func(nx.Msg) {
		left--
		if sub == nil {
			return // it did not wait to be asked
		}
		if left == 0 {
			end()
			sub.Cancel()
		} else if vsim.Flip(0.5, "served.more") {
			sub.Request(1)
		}
	}
	in.Subscribe(r)
}

// hostileGuest: a guest that breaks the protocol beside good ones.
func hostileGuest() {
	e := newEnv()
	e.w.Wide, e.w.Strict, e.w.Scatter = "C27", false, true
	e.start(1 + vsim.Choose(2, "guests"))
	p := swarm(hlib.DefaultProfile())
	base := vsim.NumG()
	h := newHostile(e, false)
	hst, err := host.New(side("host"))
	if err != nil {
		hlib.Bad("host: %v", err)
	}
	e.drive(e.w, &p, 1+vsim.Choose(8, "calls"))
	m, err := hst.Compile(side("host"), []byte("\x00asm:"+h.Prog))
	if err != nil {
		hlib.Bad("compile: %v", err)
	}
	h.inst, err = m.Instantiate(side("host"))
	muted := e.w.Fork()
	muted.Mute = true
	closed := true
	if err == nil {
		h.handlers()
		s := &hlib.Side{Name: "host", Async: hlib.HostAsync, Host: true, Full: [5]bool{true, true, true, true, true}, Block: adapt.BlockOne, BlockSeq: adapt.BlockSeq, MaxMsg: 16000}
		c := adapt.Caller(side("host"), h.inst)
		s.Call = func() nx.Caller { return c }
		t := &hlib.Side{Name: "hostile", Async: hlib.HostAsync, Host: true}
		for k := 1 + vsim.Choose(8, "evil.calls"); k > 0; k-- {
			at := int64(vsim.Choose(600, "evil.callat")) * ms
			vsim.GoHarness(func() {
				vsim.SleepNs(at)
				q := p
				kind := 1 + vsim.Choose(4, "evil.callkind")
				muted.Start(muted.New(&q, kind, s, t, &hlib.Op{Kind: kind, Index: uint32(vsim.Choose(4, "evil.callop"))}))
			})
		}
		closed = false
		at := int64(-1)
		if vsim.Flip(0.4, "evil.close") {
			at = int64(vsim.Choose(900, "evil.closeat")) * ms
		}
		if at >= 0 {
			vsim.GoHarness(func() {
				vsim.SleepNs(at)
				_ = h.inst.Close()
				closed = true
			})
			e.idle()
		} else {
			e.idle()
			vsim.GoHarness(func() {
				_ = h.inst.Close()
				closed = true
			})
			e.idle()
		}
	}
	e.finish()
	if !closed {
		hlib.Fail("C27", "close-hangs", "Close of the hostile guest does not return although the host serves nothing for it any more (%d)", h.active)
	}
	if i, why := muted.Hung(); i != nil {
		hlib.Fail("C27", "call-hangs", "the hostile guest's instance is closed, but of %s %s", i, why)
	}
	if h.uploads > 0 {
		hlib.Fail("C27", "upload-hangs", "the hostile guest is closed, but %d handlers that read what it sends were not told", h.uploads)
	}
	if !h.M.Closed() {
		hlib.Fail("C27", "not-released", "the hostile guest is closed but its module was not")
	}
	if n := vsim.NumG(); n > base {
		hlib.Fail("C27", "not-released", "%d goroutines are left of the hostile guest: %v", n-base, vsim.Leaked())
	}
	e.drive(e.w, &p, 3)
	e.finish()
}

// badStart: guests that fail to start leave nothing behind.
func badStart() {
	e := newEnv()
	e.w.Wide = "C27"
	base := vsim.NumG()
	hst, err := host.New(side("host"))
	if err != nil {
		hlib.Bad("host: %v", err)
	}
	for k := 1 + vsim.Choose(3, "evil.starts"); k > 0; k-- {
		h := newHostile(e, true)
		m, err := hst.Compile(side("host"), []byte("\x00asm:"+h.Prog))
		if err != nil {
			hlib.Bad("compile: %v", err)
		}
		h.inst, err = m.Instantiate(side("host"))
		if err == nil {
			h.handlers()
			e.idle()
			_ = h.inst.Close()
		} else {
			vsim.Count("reach:failed-start")
		}
		e.idle()
		if h.M == nil {
			hlib.Fail("C27", "not-released", "a guest can not be started after another one failed: %v", err)
			return
		}
		if !h.M.Closed() {
			hlib.Fail("C27", "not-released", "a guest failed to start (%v) but its module was not closed", err)
		}
		if n := vsim.NumG(); n > base {
			hlib.Fail("C27", "not-released", "%d goroutines are left of a guest that failed to start: %v", n-base, vsim.Leaked())
		}
	}
	g := e.plan()
	if err := g.loadOn(side("host"), hst); err != nil {
		hlib.Fail("C27", "not-released", "a good guest can not be started after others failed: %v", err)
	}
	p := swarm(hlib.DefaultProfile())
	e.drive(e.w, &p, 1+vsim.Choose(5, "calls"))
	e.finish()
}

func init() {
	hlib.Register("C27", "hostile-guest", 5, hostileGuest)
	hlib.Register("C27", "bad-start", 1, badStart)
}
