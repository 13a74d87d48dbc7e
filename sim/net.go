package vsim

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"
)

// NetConfig is the behaviour of the simulated network, drawn per run.
type NetConfig struct {
	SegP       float64 // probability that a write is split into segments
	TinyP      float64 // probability that a segment is a few bytes
	LatMaxNs   int64   // maximum latency of a segment
	StallP     float64 // probability of a long stall before a segment
	StallNs    int64
	ShortP     float64 // probability of a short read
	EOFDataP   float64 // probability that the last bytes are read together with the EOF
	Window     int     // bytes in flight before writers block
	CorruptP   float64 // probability that a segment gets one byte flipped
	ResetP     float64 // per segment: connection reset
	CutP       float64 // per segment: deliver a prefix, then EOF
	WriteErrP  float64 // per write: partial write, then error
	AcceptErrP float64
	DialErrP   float64
	Faulty     func(c *SimConn) bool // restricts faults to some connections
}

type network struct {
	cfg       NetConfig
	listeners map[string]*SimListener
	all       []*SimListener
	conns     []*SimConn
	port      int
	listenErr error
}

func newNetwork() *network {
	return &network{listeners: map[string]*SimListener{}, port: 40000, cfg: NetConfig{Window: 1 << 30}}
}

// SetNet installs the network behaviour.
func SetNet(c NetConfig) {
	if c.Window == 0 {
		c.Window = 1 << 30
	}
	s.net.cfg = c
}

// NetCfg returns the network behaviour for modification.
func NetCfg() *NetConfig { return &s.net.cfg }

// SetListenError makes the next listens fail.
func SetListenError(err error) { s.net.listenErr = err }

// Conns lists every connection end created in this run.
func Conns() []*SimConn { return s.net.conns }

// Listeners lists every listener created in this run.
func Listeners() []*SimListener { return s.net.all }

type pipe struct {
	buf      []byte
	inflight int
	lastAt   int64
	eof      bool
	frozen   bool  // nothing arrives
	err      error // reset
	rq       Queue
	wq       Queue
	total    int
}

// SimConn is one end of a simulated TCP connection.
type SimConn struct {
	ID         int
	Server     bool
	in, out    *pipe
	peer       *SimConn
	closed     bool
	rdl, wdl   int64
	rstop      func()
	local, rem net.Addr
	Written    int
	werr       error // writing fails
	wbusy      bool
	wlock      Queue
	Tag        string
	// OnData observes bytes as written (before the network).
	OnData func([]byte)
}

// Closed tells whether the local side closed the connection.
func (c *SimConn) Closed() bool { return c.closed }

// Peer is the other end.
func (c *SimConn) Peer() *SimConn { return c.peer }

// Broken tells whether the connection was reset.
func (c *SimConn) Broken() bool {
	return c.in.err != nil || c.out.err != nil || c.werr != nil || c.peer.werr != nil
}

// WriteFailed tells whether writing failed at one of the ends.
func (c *SimConn) WriteFailed() bool { return c.werr != nil || c.peer.werr != nil }

// EOFSeen tells whether the peer's end of stream has been delivered.
func (c *SimConn) EOFSeen() bool { return c.in.eof }

func addrOf(port int) net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port} }

func newPair(lport int) (client, server *SimConn) {
	n := s.net
	n.port++
	a, b := &pipe{}, &pipe{}
	client = &SimConn{ID: len(n.conns), in: a, out: b, local: addrOf(n.port), rem: addrOf(lport)}
	server = &SimConn{ID: len(n.conns) + 1, Server: true, in: b, out: a, local: addrOf(lport), rem: addrOf(n.port)}
	client.peer, server.peer = server, client
	n.conns = append(n.conns, client, server)
	return
}

// Pair makes a connected pair of ends without a listener.
func Pair() (client, server *SimConn) { return newPair(7) }

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }

func (c *SimConn) Read(b []byte) (int, error) {
	Y0()
	for {
		switch {
		case c.closed:
			return 0, opErr("read", net.ErrClosed)
		case c.in.err != nil:
			return 0, opErr("read", c.in.err)
		case len(b) == 0:
			return 0, nil
		case c.rdl != 0 && s.now >= c.rdl:
			return 0, opErr("read", os.ErrDeadlineExceeded)
		case c.in.frozen:
		case len(c.in.buf) > 0:
			n := min(len(b), len(c.in.buf))
			if n > 1 && s.net.cfg.ShortP > 0 && Flip(s.net.cfg.ShortP, "shortread") {
				n = 1 + Choose(min(n-1, 64), "shortlen")
				Count("short-read")
			}
			copy(b, c.in.buf[:n])
			c.in.buf = c.in.buf[n:]
			if len(c.in.buf) == 0 {
				c.in.buf = nil
			}
			c.in.wq.WakeAll()
			if c.in.eof && c.in.buf == nil && s.net.cfg.EOFDataP > 0 && Flip(s.net.cfg.EOFDataP, "eofdata") {
				Count("eof-with-data")
				return n, io.EOF
			}
			return n, nil
		case c.in.eof:
			return 0, io.EOF
		}
		c.in.rq.Wait("net read")
	}
}

func (c *SimConn) faults() bool {
	f := s.net.cfg.Faulty
	return f == nil || f(c)
}

func (c *SimConn) Write(b []byte) (int, error) {
	Y0()
	for c.wbusy {
		c.wlock.Wait("net write lock")
	}
	c.wbusy = true
	defer func() {
		c.wbusy = false
		c.wlock.WakeOne()
	}()
	cfg := &s.net.cfg
	limit := len(b)
	var failErr error
	if cfg.WriteErrP > 0 && c.faults() && Flip(cfg.WriteErrP, "writeerr") {
		limit = Choose(len(b)+1, "writeerr-at")
		failErr = syscall.EPIPE
		Count("write-error")
	}
	n := 0
	for {
		switch {
		case c.closed:
			return n, opErr("write", net.ErrClosed)
		case c.out.err != nil:
			return n, opErr("write", c.out.err)
		case c.werr != nil:
			return n, opErr("write", c.werr)
		case c.peer.closed && c.out.total > 0 && len(b) > 0:
			// the peer is gone: the kernel answered with a reset at some point
			return n, opErr("write", syscall.EPIPE)
		}
		if n == limit {
			break
		}
		if len(c.out.buf)+c.out.inflight >= cfg.Window {
			Count("write-blocked")
			if c.wdl != 0 && s.now >= c.wdl {
				return n, opErr("write", os.ErrDeadlineExceeded)
			}
			c.out.wq.Wait("net write")
			continue
		}
		room := min(limit-n, cfg.Window-len(c.out.buf)-c.out.inflight)
		k := room
		if k > 1 && cfg.SegP > 0 && Flip(cfg.SegP, "seg") {
			if cfg.TinyP > 0 && Flip(cfg.TinyP, "tiny") {
				k = 1 + Choose(min(room, 12), "segtiny")
			} else {
				k = 1 + Choose(room, "seglen")
			}
			Count("segmented-write")
		}
		seg := append([]byte(nil), b[n:n+k]...)
		if c.OnData != nil {
			c.OnData(seg)
		}
		n += k
		c.Written += k
		c.transmit(seg)
	}
	if failErr != nil {
		if Flip(0.5, "writeerr-oneway") {
			// only this direction is broken, and the peer does not notice
			Count("write-error-one-way")
			c.werr = failErr
		} else {
			c.reset(failErr)
		}
		return n, opErr("write", failErr)
	}
	return n, nil
}

func (c *SimConn) transmit(seg []byte) {
	cfg := &s.net.cfg
	p := c.out
	p.total += len(seg)
	if c.faults() {
		if cfg.CorruptP > 0 && Flip(cfg.CorruptP, "corrupt") {
			i := Choose(len(seg), "corrupt-at")
			seg[i] ^= byte(1 << Choose(8, "corrupt-bit"))
			Count("corrupt-byte")
		}
		if cfg.ResetP > 0 && Flip(cfg.ResetP, "reset") {
			Count("reset")
			c.reset(syscall.ECONNRESET)
			return
		}
		if cfg.CutP > 0 && Flip(cfg.CutP, "cut") {
			Count("cut")
			seg = seg[:Choose(len(seg), "cut-at")]
			c.deliver(seg, func() { p.eof = true; p.rq.WakeAll() })
			c.in.eof = true
			c.in.rq.WakeAll()
			c.out.err = syscall.EPIPE
			return
		}
	}
	c.deliver(seg, nil)
}

func (c *SimConn) deliver(seg []byte, after func()) {
	cfg := &s.net.cfg
	p := c.out
	var lat int64
	if cfg.LatMaxNs > 0 {
		lat = int64(Choose(1000, "lat")) * cfg.LatMaxNs / 1000
	}
	if cfg.StallP > 0 && Flip(cfg.StallP, "stall") {
		lat += cfg.StallNs
		Count("stall")
	}
	at := s.now + lat
	if at < p.lastAt {
		at = p.lastAt
	}
	if at == s.now && p.inflight == 0 {
		p.buf = append(p.buf, seg...)
		p.rq.WakeAll()
		if after != nil {
			after()
		}
		return
	}
	if lat > 0 {
		Count("delayed-segment")
	}
	p.lastAt = at
	p.inflight += len(seg)
	addTimer(at-s.now, func() {
		p.inflight -= len(seg)
		if p.err == nil {
			p.buf = append(p.buf, seg...)
			if after != nil {
				after()
			}
		}
		p.rq.WakeAll()
	})
}

func (c *SimConn) reset(err error) {
	for _, p := range []*pipe{c.in, c.out} {
		p.err = err
		p.buf = nil
		p.rq.WakeAll()
		p.wq.WakeAll()
	}
}

// Reset breaks the connection from the network.
func (c *SimConn) Reset() {
	Count("reset")
	c.reset(syscall.ECONNRESET)
}

// Freeze stops (or lets go on) the arrival of bytes in both directions.
func (c *SimConn) Freeze(on bool) {
	if on {
		Count("partition")
	} else {
		Count("heal")
	}
	for _, p := range []*pipe{c.in, c.out} {
		p.frozen = on
		if !on {
			p.rq.WakeAll()
		}
	}
}

// HalfEOF delivers an end of stream to the peer of c (as if c's host had shut down sending).
func (c *SimConn) HalfEOF() {
	Count("eof")
	c.deliver(nil, func() { c.out.eof = true; c.out.rq.WakeAll() })
}

func (c *SimConn) Close() error {
	Y0()
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	if c.rstop != nil {
		c.rstop()
	}
	p := c.out
	c.deliver(nil, func() { p.eof = true; p.rq.WakeAll() })
	c.in.rq.WakeAll()
	c.out.wq.WakeAll()
	c.in.wq.WakeAll()
	return nil
}

func (c *SimConn) LocalAddr() net.Addr  { return c.local }
func (c *SimConn) RemoteAddr() net.Addr { return c.rem }
func (c *SimConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *SimConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	if c.rstop != nil {
		c.rstop()
		c.rstop = nil
	}
	if t.IsZero() {
		c.rdl = 0
		return nil
	}
	d := t.UnixNano() - WallNs()
	if d < 0 {
		d = 0
	}
	c.rdl = s.now + d
	if c.rdl == 0 {
		c.rdl = 1
	}
	if d == 0 {
		c.rdl = max(s.now, 1)
		c.in.rq.WakeAll()
		return nil
	}
	c.rstop = AfterNs(d, func() { c.in.rq.WakeAll() })
	return nil
}
func (c *SimConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	if t.IsZero() {
		c.wdl = 0
		return nil
	}
	d := t.UnixNano() - WallNs()
	if d < 0 {
		d = 0
	}
	c.wdl = max(s.now+d, 1)
	AfterNs(d, func() { c.out.wq.WakeAll() })
	return nil
}

// SimListener is a simulated listening socket.
type SimListener struct {
	port   int
	closed bool
	q      []*SimConn
	wq     Queue
	aerr   error
}

// Closed tells whether the listener was closed.
func (l *SimListener) Closed() bool { return l.closed }

func portOf(addr string) (int, error) {
	i := strings.LastIndexByte(addr, ':')
	if i < 0 {
		return 0, fmt.Errorf("address %s: missing port in address", addr)
	}
	var p int
	if _, err := fmt.Sscanf(addr[i+1:], "%d", &p); err != nil {
		return 0, fmt.Errorf("address %s: bad port", addr)
	}
	return p, nil
}

// ListenTCP opens a simulated listener.
func ListenTCP(ctx context.Context, addr string) (net.Listener, error) {
	Y0()
	if err := ctx.Err(); err != nil {
		return nil, opErr("listen", err)
	}
	if s.net.listenErr != nil {
		Count("listen-error")
		return nil, opErr("listen", s.net.listenErr)
	}
	p, err := portOf(addr)
	if err != nil {
		return nil, opErr("listen", err)
	}
	if p == 0 {
		s.net.port++
		p = s.net.port
	}
	k := fmt.Sprint(p)
	if l := s.net.listeners[k]; l != nil && !l.closed {
		return nil, opErr("listen", syscall.EADDRINUSE)
	}
	l := &SimListener{port: p}
	s.net.listeners[k] = l
	s.net.all = append(s.net.all, l)
	return l, nil
}

var errAccept = errors.New("accept: too many open files")

func (l *SimListener) Accept() (net.Conn, error) {
	Y0()
	for {
		if l.closed {
			return nil, opErr("accept", net.ErrClosed)
		}
		if s.net.cfg.AcceptErrP > 0 && Flip(s.net.cfg.AcceptErrP, "accepterr") {
			Count("accept-error")
			return nil, opErr("accept", syscall.EMFILE)
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		l.wq.Wait("accept")
	}
}

func (l *SimListener) Close() error {
	Y0()
	if l.closed {
		return opErr("close", net.ErrClosed)
	}
	l.closed = true
	l.wq.WakeAll()
	for _, c := range l.q { // connections never accepted are reset
		c.reset(syscall.ECONNRESET)
		c.closed = true
	}
	l.q = nil
	return nil
}

func (l *SimListener) Addr() net.Addr { return addrOf(l.port) }

// DialTCP connects to a simulated listener.
func DialTCP(ctx context.Context, addr string) (net.Conn, error) {
	Y0()
	if err := ctx.Err(); err != nil {
		return nil, opErr("dial", err)
	}
	p, err := portOf(addr)
	if err != nil {
		return nil, opErr("dial", err)
	}
	if s.net.cfg.DialErrP > 0 && Flip(s.net.cfg.DialErrP, "dialerr") {
		Count("dial-error")
		return nil, opErr("dial", syscall.ECONNREFUSED)
	}
	l := s.net.listeners[fmt.Sprint(p)]
	if l == nil || l.closed {
		return nil, opErr("dial", syscall.ECONNREFUSED)
	}
	c, sv := newPair(p)
	l.q = append(l.q, sv)
	l.wq.WakeOne()
	return c, nil
}
