package main

import (
	"fmt"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	context "vsim/scontext"
)

// recorder is the frame handler of one end.
type recorder struct {
	name string
	slow bool
	got  []frames.Frame
	text []string
	on   func(n int, text string)
	done bool
}

func (r *recorder) SetFrameSender(rsocket.FrameHandler) {}

func (r *recorder) HandleFrame(f frames.Frame) error {
	t := describe(f)
	r.got = append(r.got, f)
	r.text = append(r.text, t)
	vsim.Event("%s got %.60s", r.name, t)
	if r.done {
		hlib.Fail("C07", "frame-late", "%s: frame dispatched after Start returned", r.name)
	}
	if r.on != nil {
		r.on(len(r.got)-1, t)
	}
	if r.slow && vsim.Flip(0.3, "slow") {
		vsim.SleepNs(int64(vsim.Range(1, 50, "slow.ms")) * ms)
	}
	return nil
}

func sumBytes(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%x", b)
	}
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return fmt.Sprintf("%x..%d:%x", b[:8], len(b), h)
}

// describe gives everything that a frame carries.
func describe(f frames.Frame) string {
	switch f := f.(type) {
	case *frames.Setup:
		return fmt.Sprintf("SETUP %d.%d keep=%v life=%v token=%s mime=%q,%q meta=%s data=%s lease=%v", f.MajorVersion, f.MinorVersion, f.TimeBetweenKeepalive, f.MaxLifetime, sumBytes(f.Token), f.MimeMetadata, f.MimeData, sumBytes(f.Metadata), sumBytes(f.Data), f.Lease)
	case *frames.RequestPayload:
		n, c := f.InitialN, f.Complete
		if f.FrameType != frames.FrameTypeRequestStream && f.FrameType != frames.FrameTypeRequestChannel {
			n = 0
		}
		if f.FrameType != frames.FrameTypeRequestChannel {
			c = false
		}
		return fmt.Sprintf("REQUEST%d id=%d n=%d meta=%s data=%s follows=%v complete=%v", f.FrameType, f.StreamID, n, sumBytes(f.Metadata), sumBytes(f.Data), f.Follows, c)
	case *frames.RequestN:
		return fmt.Sprintf("REQUESTN id=%d n=%d", f.StreamID, f.N)
	case *frames.Cancel:
		return fmt.Sprintf("CANCEL id=%d", f.StreamID)
	case *frames.Payload:
		return fmt.Sprintf("PAYLOAD id=%d meta=%s data=%s follows=%v complete=%v next=%v", f.StreamID, sumBytes(f.Metadata), sumBytes(f.Data), f.Follows, f.Complete, f.Next)
	case *frames.Error:
		return fmt.Sprintf("ERROR id=%d code=%d data=%s", f.StreamID, f.Code, sumBytes([]byte(f.Data)))
	}
	return fmt.Sprintf("%T", f)
}

const maxFrame = 1<<24 - 1

type frameGen struct {
	n    uint64
	max  int
	huge int // frames near the largest size still allowed in this run
}

func (g *frameGen) bytes(label string) []byte {
	g.n++
	n := 0
	switch vsim.Choose(6, label+".size") {
	case 0:
	case 1, 2:
		n = vsim.Range(1, 16, label+".small")
	case 3:
		n = vsim.Range(0, min(g.max, 300), label+".mid")
	case 4:
		n = vsim.Range(0, g.max, label+".big")
	case 5: // around buffer sizes
		n = []int{4096, 8192, 255, 256, 8183, 8186, 16384}[vsim.Choose(7, label+".edge")] + vsim.Range(-3, 3, label+".off")
		if n > g.max {
			n = g.max
		}
	}
	return hlib.Fill(g.n, 'f', 0, n)
}

// stream makes an identifier that tells the sender and the position.
func streamID(sender, k int) uint32 { return uint32(sender+1)<<20 | uint32(k) + 1 }

// next makes a frame; ok tells whether it fits.
func (g *frameGen) next(sender, k int) (f frames.Frame, ok bool) {
	id := streamID(sender, k)
	meta := func() []byte {
		if vsim.Flip(0.4, "frame.meta") {
			return g.bytes("frame.meta")
		}
		return nil
	}
	flag := func(l string) bool { return vsim.Flip(0.4, "frame."+l) }
	if g.huge > 0 && vsim.Flip(0.5, "frame.huge") {
		g.huge--
		// sizes at the limit: 6 bytes of header, 3 of metadata length
		d := vsim.Range(-2, 3, "frame.limit")
		size := maxFrame + d
		var m []byte
		rest := size - frames.FrameHeaderLen
		if flag("hugemeta") {
			m = hlib.Fill(uint64(id), 'm', 0, 1000)
			rest -= 3 + len(m)
		}
		return &frames.Payload{StreamID: id, Metadata: m, Data: hlib.Fill(uint64(id), 'h', 0, rest), Next: true}, d <= 0
	}
	switch vsim.Choose(8, "frame.type") {
	case 0, 1, 2:
		return &frames.Payload{StreamID: id, Metadata: meta(), Data: g.bytes("frame.data"), Follows: flag("follows"), Complete: flag("complete"), Next: flag("next")}, true
	case 3, 4:
		t := []frames.FrameType{frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel}[vsim.Choose(4, "frame.request")]
		return &frames.RequestPayload{FrameType: t, StreamID: id, Metadata: meta(), Data: g.bytes("frame.data"), Follows: flag("follows"), Complete: flag("complete"), InitialN: uint32(vsim.Range(0, 1<<31-1, "frame.n"))}, true
	case 5:
		return &frames.RequestN{StreamID: id, N: uint32(vsim.Range(0, 1<<31-1, "frame.n"))}, true
	case 6:
		return &frames.Cancel{StreamID: id}, true
	default:
		return &frames.Error{StreamID: id, Code: frames.ErrCode(vsim.Choose(1000, "frame.code")), Data: string(g.bytes("frame.text"))}, true
	}
}

func randomSetup(g *frameGen) *frames.Setup {
	s := &frames.Setup{MajorVersion: uint16(vsim.Choose(70, "setup.major")), MinorVersion: 2, Data: g.bytes("setup.data"), Lease: vsim.Flip(0.2, "setup.lease")}
	s.TimeBetweenKeepalive = time.Duration(vsim.Choose(100000, "setup.keep")) * time.Millisecond
	s.MaxLifetime = time.Duration(vsim.Choose(100000, "setup.life")) * time.Millisecond
	if vsim.Flip(0.3, "setup.meta") {
		s.Metadata = g.bytes("setup.meta")
	}
	if vsim.Flip(0.3, "setup.token") {
		s.Token = hlib.Fill(7, 't', 0, vsim.Range(1, 300, "setup.tokenlen"))
	}
	if vsim.Flip(0.3, "setup.mime") {
		s.MimeMetadata, s.MimeData = "message/x.rsocket.routing.v0", "application/octet-stream"
	}
	return s
}

// framesOverTransport: goroutines on both ends send frames of every kind.
func framesOverTransport(closing bool) func() {
	return func() {
		healthyNet()
		g := &frameGen{max: []int{64, 1000, 9000, 40000}[vsim.Choose(4, "frame.max")]}
		if vsim.Flip(0.004, "frame.hugerun") {
			g.huge = 1 + vsim.Choose(2, "frame.hugecount")
			vsim.SetNet(vsim.NetConfig{})
			vsim.Count("workload:frames-at-size-limit")
		}
		if vsim.NetCfg().Window < 1000 {
			g.max = min(g.max, 1000)
		}
		vsim.NetCfg().EOFDataP = 0.5
		a, b := vsim.Pair()
		type end struct {
			rec     *recorder
			t       *rsocket.Transport
			senders int
			sent    [][]string // per sender
			next    []int      // per sender, what the peer has seen
			open    int
			err     error
		}
		mk := func(name string, c *vsim.SimConn, server bool) *end {
			e := &end{rec: &recorder{name: name, slow: vsim.Flip(0.3, "slowend")}}
			e.t = rsocket.NewTransport(rsocket.NewTCPConn(c), e.rec, server)
			return e
		}
		cl, sv := mk("client", a, false), mk("server", b, true)
		ctx, cancel := context.WithCancel(side("both"))
		defer cancel()
		for _, e := range []*end{cl, sv} {
			e := e
			vsim.GoHarness(func() {
				e.err = e.t.Start(ctx)
				e.rec.done = true
				vsim.Event("%s ended %v", e.rec.name, e.err)
			})
		}
		first := randomSetup(g)
		firstText := describe(first)
		setupSeen := 0
		over := vsim.Make[chan int](100)
		watch := func(from, to *end) {
			to.rec.on = func(n int, text string) {
				f := to.rec.got[n]
				if f.Type() == frames.FrameTypeSetup {
					setupSeen++
					if to != sv || n != 0 || setupSeen > 1 || text != firstText {
						hlib.Fail("C07", "frame-changed", "%s got %s instead of %s", to.rec.name, text, firstText)
					}
					return
				}
				s := int(f.GetStreamID()>>20) - 1
				if s < 0 || s >= len(from.sent) {
					hlib.Fail("C07", "frame-invented", "%s got %s, which no goroutine sent", to.rec.name, text)
					return
				}
				k := from.next[s]
				if k >= len(from.sent[s]) {
					hlib.Fail("C07", "frame-twice", "%s got %s, but has all frames of sender %d", to.rec.name, text, s)
					return
				}
				if from.sent[s][k] != text {
					for j := k + 1; j < len(from.sent[s]); j++ {
						if from.sent[s][j] == text {
							hlib.Fail("C07", "frame-order", "%s got %s of sender %d before %s", to.rec.name, text, s, from.sent[s][k])
						}
					}
					hlib.Fail("C07", "frame-changed", "%s got %s instead of %s", to.rec.name, text, from.sent[s][k])
				}
				from.next[s]++
			}
		}
		watch(cl, sv)
		watch(sv, cl)
		if err := cl.t.Send(first, true); err != nil {
			hlib.Fail("C07", "send-failed", "sending the setup frame failed: %v", err)
		}
		if vsim.Flip(0.5, "waitready") {
			if !sv.t.WaitUntilReady() {
				hlib.Fail("C07", "not-ready", "the server side never got ready")
			}
		}
		for _, e := range []*end{cl, sv} {
			e := e
			n := 1 + vsim.Choose(4, "senders")
			e.sent, e.next = make([][]string, n), make([]int, n)
			for s := 0; s < n; s++ {
				s := s
				count := vsim.Choose(12, "frames")
				pause := vsim.Flip(0.3, "pause")
				e.open++
				vsim.GoHarness(func() {
					defer func() { vsim.TrySend(over, 1) }()
					unflushed := false
					for k := 0; k < count; k++ {
						f, fits := g.next(s, k)
						flush := !vsim.Flip(0.15, "noflush")
						text := describe(f)
						if fits {
							e.sent[s] = append(e.sent[s], text)
						}
						vsim.Event("%s/%d sends %.60s", e.rec.name, s, text)
						err := e.t.Send(f, flush)
						if fits && err != nil {
							hlib.Fail("C07", "send-failed", "%s: sending %s failed: %v", e.rec.name, text, err)
						}
						if !fits && err == nil {
							hlib.Fail("C07", "oversized-sent", "%s: sending a frame of %d bytes reported no error", e.rec.name, f.Size())
						}
						if fits {
							unflushed = !flush
						}
						if pause && vsim.Flip(0.4, "pause.now") {
							vsim.SleepNs(int64(vsim.Range(0, 30, "pause.ms")) * ms)
						}
					}
					if unflushed {
						if err := e.t.Flush(); err != nil {
							hlib.Fail("C07", "send-failed", "%s: flushing failed: %v", e.rec.name, err)
						}
					}
				})
			}
		}
		var closer *end
		if closing {
			// one end closes as soon as its senders are done; what they sent still arrives
			closer = []*end{cl, sv}[vsim.Choose(2, "closer")]
			peer := cl
			if closer == cl {
				peer = sv
			}
			for k := closer.open + peer.open; k > 0; k-- {
				vsim.Recv(over)
			}
			_ = closer.t.Close()
		}
		if !vsim.WaitIdle(settle) {
			hlib.Fail("C07", "no-quiescence", "still busy")
		}
		if setupSeen == 0 && closer != sv {
			hlib.Fail("C07", "frame-lost", "the setup frame never arrived")
		}
		for _, e := range []*end{cl, sv} {
			if closer != nil && e != closer {
				continue // the closing end need not read any more
			}
			for s := range e.sent {
				if e.next[s] != len(e.sent[s]) {
					hlib.Fail("C07", "frame-lost", "%d of %d frames of %s/%d arrived; missing %s", e.next[s], len(e.sent[s]), e.rec.name, s, e.sent[s][e.next[s]])
				}
			}
			if closer == nil && e.rec.done {
				hlib.Fail("C07", "ended", "%s ended by itself: %v", e.rec.name, e.err)
			}
		}
		for _, e := range []*end{cl, sv} {
			for k, f := range e.rec.got {
				if t := describe(f); t != e.rec.text[k] {
					hlib.Fail("C07", "frame-changed-later", "a frame that %s got changed later: %s became %s", e.rec.name, e.rec.text[k], t)
				}
			}
		}
	}
}

func init() {
	hlib.Register("C07", "frames", 6, framesOverTransport(false))
	hlib.Register("C07", "closing", 2, framesOverTransport(true))
}
