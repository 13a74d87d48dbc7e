package hlib

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"weak"

	"vsim"
	"vsim/nx"
)

// The reference model of interactions. A scenario plans interactions, the
// handlers and callbacks record what happens to each and compare it with the
// plan as the run proceeds, and Check judges the whole history at quiescence.

// Side is one end of a connection or of a WebAssembly boundary.
type Side struct {
	Name     string
	Call     func() nx.Caller            // towards the peer
	Async    func(delay int64, f func()) // run f on this side later
	Host     bool                        // goroutines may block here
	Full     [5]bool                     // handlers of the kind see all of the metadata
	Block    func(s nx.Single) (nx.Msg, error)
	BlockSeq func(s nx.Seq, r nx.Rcv) error
	MaxMsg   int  // largest data size used towards this side (0: profile decides)
	Dead     bool // the side is gone: what it hears of is not judged
	Gone     func() bool
	Closed   func() bool
	CallFor  func(i *Inter) nx.Caller // if the call has a context of its own
	Past     func(kind int) uint32    // the first number that no operation of the kind has
}

func (s *Side) dead() bool { return s.Dead || s.Gone != nil && s.Gone() }

// HostAsync runs f on a goroutine of its own.
func HostAsync(delay int64, f func()) {
	vsim.GoHarness(func() {
		if delay > 0 {
			vsim.SleepNs(delay)
		}
		f()
	})
}

// Op is an operation that a side exports.
type Op struct {
	Kind     int
	NS, Name string
	Side     *Side // nil: both sides share it
	Index    uint32
}

// W is the history of one run.
type W struct {
	Wide       string // report everything as violations of this property
	Lossy      bool   // calls may end with an error
	Maybe      bool   // ... or work as usual
	Relay      bool   // calls are passed on by somebody in between
	Limit      int    // messages over this size make their call fail
	Strict     bool   // handlers must not see payloads that nobody sent
	Track      bool   // tokens for reachability
	Inters     []*Inter
	Mute       bool // judge nothing
	Scatter    bool // identifiers are far apart
	byID       map[uint64]*Inter
	kept       []kept
	seq        *uint64
	OnInvoke   func(i *Inter, c nx.Ctx) // a handler starts
	OnSpurious func(op *Op, c nx.Ctx, m nx.Msg)
	Nest       func(i *Inter, p *Profile) *Inter // plans a call that a handler makes
	phantoms   []*Inter
	Phantom    *Side // side whose handlers answer calls that nobody planned
	Cancels    int
	big        bool
}

type kept struct {
	i    *Inter
	what string
	m    nx.Msg
	d, x []byte
}

// NewW makes an empty history.
func NewW() *W { return &W{byID: map[uint64]*Inter{}, Strict: true, seq: new(uint64)} }

// Fork makes a history of its own whose interactions reach the same handlers.
func (w *W) Fork() *W {
	f := *w
	f.Inters, f.kept, f.Cancels = nil, nil, 0
	return &f
}

// Detach makes the calls of a history unknown to the handlers of others.
func (w *W) Detach() { w.byID = map[uint64]*Inter{} }

func (w *W) fail(prop, class, format string, a ...any) {
	if w.Mute {
		return
	}
	if len(a) > 0 && prop == "C01" {
		if i, ok := a[0].(*Inter); ok && i.as != "" {
			prop = i.as
		}
	}
	if w.Wide != "" {
		prop = w.Wide
	}
	Fail(prop, class, format, a...)
}

// Profile shapes the plans.
type Profile struct {
	Kinds    []int
	MaxItems int
	MaxData  int
	Cancel   float64 // probability that a consumer cancels
	Err      float64 // probability of an error ending
	None     float64 // probability that a producer never ends
	Stall    float64 // probability that a consumer stops asking until resumed
	Demand   float64 // probability that a consumer asks in pages
	Eager    float64 // probability that a producer ignores demand
	Nested   float64 // probability that a request/response handler calls back
	NoInput  float64 // probability that a channel handler ignores its input
	Slow     bool    // handlers may take up to minutes
	Hold     float64 // probability that a request/response is not answered until released
	Flood    int     // fixed number of items
	NoBlock  bool
	Bad      float64 // probability that a call names no operation
	BadFNF   float64 // the same, for messages only
	Wide     string
	Big      bool // sizes around the largest frame that fits a guest's buffer
}

// DefaultProfile is a mixture of everything.
func DefaultProfile() Profile {
	return Profile{Kinds: []int{nx.RR, nx.FNF, nx.RS, nx.RC}, MaxItems: 8, MaxData: 60, Cancel: 0.15, Err: 0.2, None: 0.05, Stall: 0.1, Demand: 0.5, Eager: 0.15, Nested: 0.15, NoInput: 0.05}
}

// Ends of a lane.
const (
	EndComplete = iota
	EndError
	EndNone
)

// Producer modes.
const (
	pSync = iota
	pAsync
	pProc
	pProcAsync
	pSlice
	pSliceResp
	pMap
	pMapFail
	pErrorFlux
	pEager
	pEagerAsync
	pNil // the caller of the channel gives no input
)

// Consumer modes.
const (
	cUnbounded = iota
	cPages
	cManual
	cAsyncReq
	cBlock
	cAsync // Async and Notify only
	cNone
)

// Inter is one interaction.
type Inter struct {
	w        *W
	ID       uint64
	Kind     int
	From, To *Side
	Op       *Op
	Bad      int    // 1: unknown operation, 2: short metadata, 3: Named is of no operation
	Under    uint32 // stream id of the call that this one is made for
	badIndex uint32
	child    *Inter  // the call that the handler makes
	dwell    int     // what the handler does before it returns: 0 nothing, 1 waits, 2 calls back
	as       string  // the property that the call stands for, if not that of its kind
	Named    *uint32 // index the name was resolved to
	Req      nx.Msg
	One      *One
	Out, In  *Lane
	Parent   *Inter
	Started  bool
	Invoked  int
	Expect   bool // the handler is expected to be invoked
	gone     bool // no longer judged
	callDone bool
	slow     int64
	Excuse   func() bool // tells whether the interaction may fail by now
}

// lossy tells whether the interaction may have been cut off.
func (i *Inter) lossy() bool { return i.w.Lossy || i.Excuse != nil && i.Excuse() }

// Lookup finds the interaction that a request belongs to.
func (w *W) Lookup(m nx.Msg) *Inter {
	if len(m.D) < 8 {
		return nil
	}
	return w.byID[binary.BigEndian.Uint64(m.D)]
}

// Move tells where the interaction is served.
func (i *Inter) Move(to *Side) {
	i.To = to
	if i.Out != nil {
		i.Out.prod = to
	}
	if i.In != nil {
		i.In.cons = to
	}
}

// One is the outcome of a request/response.
type One struct {
	i       *Inter
	Mode    int
	Caller  int
	Val     nx.Msg
	Err     string
	IsErr   bool
	Hold    bool
	sink    nx.OneSink
	settled bool // the handler has produced the outcome
	got     int
	gotErr  int
	fin     int
	notify  int
	tok     weak.Pointer[token]
	ptok    weak.Pointer[token]
}

// One modes.
const (
	oJust = iota
	oErr
	oCreate
	oCreateAsync
	oProc
	oProcAsync
	oMap
	oMapFail
	oNested
	oNestedBlock
)

// Lane is one direction of a stream.
type Lane struct {
	i          *Inter
	In         bool
	prod, cons *Side
	Items      []nx.Msg
	End        int
	Err        string
	Mode       int
	CMode      int
	CancelAt   int // -1: never
	CanAsync   bool
	Total      int  // what a stalling consumer asks for at first (0: does not stall)
	Ignore     bool // the producer goes on emitting after it was cancelled
	sleeps     bool
	slow       bool // the source takes its time until it is ready
	dwell      int  // what the producer does when it is asked: 0 nothing, 1 waits, 2 calls back
	dwellAt    int  // the request at which it does

	// producer
	sink     nx.Sink
	Subbed   bool
	asked    int
	emitted  int
	ended    bool
	pcancel  int
	emitting bool
	sched    bool

	// consumer
	subscribed                          bool
	attached                            bool // Subscribe has returned
	raw                                 nx.Seq
	sub                                 nx.Sub
	granted                             int
	got                                 int
	completed                           int
	errored                             int
	errText                             string
	fin                                 int
	sig                                 int
	notify                              int
	notifySig                           int
	cancelCalled, cancelled, cancelSync bool
	canSched                            bool
	after, late                         int
	blockDone                           bool
	reqs                                int
	tok, ptok                           weak.Pointer[token]
}

type token [96]byte

func (w *W) newTok(p *weak.Pointer[token]) *token {
	if !w.Track {
		return nil
	}
	t := new(token)
	*p = weak.Make(t)
	return t
}

func (w *W) bytes(id uint64, tag byte, k int, max int, label string) []byte {
	n := 0
	if w.big && max > 16384 && vsim.Flip(0.4, label+".edge") {
		return Fill(id, tag, k, 16384-80+vsim.Choose(100, label+".over"))
	}
	switch vsim.Choose(8, label+".size") {
	case 0:
		n = 8 % (max + 1)
	case 1:
		n = 0
	case 2, 3, 4, 5:
		n = vsim.Range(0, min(max, 24), label+".n")
	case 6: // around a power of two
		if n = 1<<(3+vsim.Choose(15, label+".log")) - 12 + vsim.Choose(16, label+".near"); n >= 0 && n <= max {
			break
		}
		fallthrough
	default:
		n = vsim.Range(0, max, label+".n")
	}
	b := Fill(id, tag, k, n)
	if vsim.Flip(0.04, label+".same") {
		c := []byte{0, 0xff, ' '}[vsim.Choose(3, label+".byte")]
		for j := range b {
			b[j] = c
		}
	}
	return b
}

// msg makes a message of at most about max bytes.
func (w *W) msg(id uint64, tag, mtag byte, k, max int, label string) (m nx.Msg) {
	if vsim.Flip(0.2, label+"meta") {
		n := min(max, 40)
		if max > 1000 && vsim.Flip(0.2, label+"meta.large") {
			n = max
		}
		if m.M = w.bytes(id, mtag, k, n, label+"meta"); len(m.M) > 40 {
			max -= min(max, len(m.M))
		}
	}
	m.D = w.bytes(id, tag, k, max, label)
	return
}

// Fill makes n recognisable bytes.
func Fill(id uint64, tag byte, k, n int) []byte {
	b := make([]byte, n)
	h := mixseed(id, uint64(tag), uint64(k))
	for i := range b {
		if i%8 == 0 {
			h = mixseed(h, uint64(i))
		}
		b[i] = byte(h >> (8 * (i % 8)))
	}
	return b
}

// New plans an interaction.
func (w *W) New(p *Profile, kind int, from, to *Side, op *Op) *Inter {
	*w.seq++
	w.big = p.Big
	id := 0xC0DE000000000000 | *w.seq
	if w.Scatter {
		id = mixseed(*w.seq, 99) << 1
	}
	i := &Inter{w: w, ID: id, Kind: kind, From: from, To: to, Op: op, Expect: true}
	w.Inters = append(w.Inters, i)
	w.byID[i.ID] = i
	max := p.MaxData
	if to.MaxMsg > 0 && max > to.MaxMsg {
		max = to.MaxMsg
	}
	d := make([]byte, 8, 8+64)
	binary.BigEndian.PutUint64(d, i.ID)
	d = append(d, Fill(i.ID, 'q', 0, 4)...)
	r := w.msg(i.ID, 'd', 'm', 0, max, "req")
	i.Req = nx.Msg{D: append(d, r.D...), M: r.M}
	if to.Host && !p.NoBlock && to.Block != nil && vsim.Flip(p.Nested/2, "dwell") {
		i.dwell = 1 + vsim.Choose(2, "dwell.how")
	}
	switch kind {
	case nx.RR:
		i.One = w.planOne(p, i, max)
	case nx.RS:
		i.Out = w.planLane(p, i, false, max)
	case nx.RC:
		i.Out = w.planLane(p, i, false, max)
		i.In = w.planLane(p, i, true, max)
	}
	if w.Limit > 0 && vsim.Flip(0.3, "err.big") {
		big := func(s *string) {
			if *s != "" {
				*s += string(Fill(i.ID, 'e', 1, w.Limit-60+vsim.Choose(700, "err.bigsize")))
			}
		}
		if i.One != nil {
			big(&i.One.Err)
		}
		for _, l := range []*Lane{i.Out, i.In} {
			if l != nil {
				big(&l.Err)
			}
		}
	}
	return i
}

// Spoil makes the request name no operation.
func (i *Inter) Spoil() {
	i.Bad = 1 + vsim.Choose(2, "bad.case")
	if i.Bad != 1 {
		return
	}
	past := i.Op.Index + 1000
	if i.To.Past != nil {
		past = i.To.Past(i.Kind)
	}
	switch vsim.Choose(6, "bad.index") {
	case 0, 1:
		i.badIndex = past
	case 2:
		i.badIndex = past + uint32(vsim.Choose(300, "bad.more"))
	case 3:
		i.badIndex = i.Op.Index | 1<<uint(16+vsim.Choose(16, "bad.bit"))
	case 4:
		i.badIndex = 0xffffffff - uint32(vsim.Choose(2, "bad.top"))
	case 5:
		i.badIndex = i.Op.Index + 1000
	}
}

// meta is the metadata that goes with the request.
func (i *Inter) meta() []byte {
	var b [8]byte
	binary.BigEndian.PutUint32(b[:4], i.Op.Index)
	if i.Named != nil {
		binary.BigEndian.PutUint32(b[:4], *i.Named)
	}
	switch i.Bad {
	case 1:
		binary.BigEndian.PutUint32(b[:4], i.badIndex)
	case 2:
		return b[:len(i.Req.D)%8]
	}
	binary.BigEndian.PutUint32(b[4:], i.Under)
	return append(b[:], i.Req.M...)
}

// errText makes the text of an error.
func errText(tag string, id uint64) string {
	text := fmt.Sprintf("%s-%x", tag, id&0xffffff)
	switch vsim.Choose(16, "err.text") {
	case 14:
		return ""
	case 15:
		return text + string(Fill(id, 'e', 0, vsim.Range(0, 1500, "err.len")))
	}
	return text
}

func (w *W) planOne(p *Profile, i *Inter, max int) *One {
	o := &One{i: i}
	o.IsErr = vsim.Flip(p.Err, "rr.err")
	if o.IsErr {
		o.Err = errText("rr", i.ID)
	} else {
		o.Val = w.msg(i.ID, 'v', 'w', 1, max, "rr.val")
	}
	o.Hold = vsim.Flip(p.Hold, "rr.hold")
	switch {
	case o.Hold:
		o.Mode = []int{oCreateAsync, oProcAsync}[vsim.Choose(2, "rr.mode")]
	case vsim.Flip(p.Nested, "rr.nested"):
		o.Mode = oNested
		if i.To.Host && vsim.Flip(0.4, "rr.nestblock") {
			o.Mode = oNestedBlock
		}
	default:
		o.Mode = []int{oCreate, oJust, oCreateAsync, oProc, oProcAsync, oMap, oMapFail}[vsim.Choose(7, "rr.mode")]
		if o.Mode == oJust && o.IsErr {
			o.Mode = oErr
		}
		if o.Mode == oMapFail && !o.IsErr {
			o.Mode = oMap
		}
		if o.Mode == oMap && o.IsErr {
			o.Mode = oMapFail
		}
	}
	o.Caller = vsim.Choose(3, "rr.caller")
	if o.Caller == 2 && (!i.From.Host || p.NoBlock || i.From.Block == nil) {
		o.Caller = 0
	}
	return o
}

func (w *W) planLane(p *Profile, i *Inter, in bool, max int) *Lane {
	l := &Lane{i: i, In: in, prod: i.To, cons: i.From, CancelAt: -1}
	tag := byte('o')
	if in {
		l.prod, l.cons, tag = i.From, i.To, 'i'
	}
	n := vsim.Choose(p.MaxItems+1, "lane.items")
	if p.Flood > 0 {
		n = p.Flood
	}
	for k := 0; k < n; k++ {
		l.Items = append(l.Items, w.msg(i.ID, tag, tag+100, k+1, max, "item"))
	}
	if vsim.Flip(p.Err, "lane.err") {
		l.End = EndError
		l.Err = errText(string(rune(tag)), i.ID)
	} else if vsim.Flip(p.None, "lane.none") {
		l.End = EndNone
	}
	// consumer
	l.CMode = cUnbounded
	if vsim.Flip(p.Demand, "lane.demand") {
		l.CMode = []int{cPages, cManual, cAsyncReq}[vsim.Choose(3, "lane.cmode")]
	} else if vsim.Flip(0.15, "lane.async") && !in {
		l.CMode = cAsync
	} else if l.cons.Host && !p.NoBlock && !in && l.End != EndNone && l.cons.BlockSeq != nil && vsim.Flip(0.15, "lane.block") {
		l.CMode = cBlock
	}
	if in && vsim.Flip(p.NoInput, "lane.noinput") {
		l.CMode = cNone
	}
	if vsim.Flip(p.Cancel, "lane.cancel") && l.CMode != cBlock && l.CMode != cNone && l.CMode != cAsync {
		l.CancelAt = vsim.Choose(len(l.Items)+1, "lane.cancelat")
		l.CanAsync = vsim.Flip(0.5, "lane.cancelasync")
		l.Ignore = vsim.Flip(0.2, "lane.ignore")
	}
	if vsim.Flip(p.Stall, "lane.stall") && (l.CMode == cManual || l.CMode == cAsyncReq) {
		l.Total = 1 + vsim.Choose(len(l.Items)+1, "lane.total")
	}
	// producer
	switch {
	case l.CMode == cUnbounded && vsim.Flip(p.Eager, "lane.eager") && !in:
		l.Mode = pEager + vsim.Choose(2, "lane.eagermode")
	default:
		l.Mode = []int{pSync, pAsync, pProc, pProcAsync, pSlice, pSliceResp, pMap, pMapFail, pErrorFlux}[vsim.Choose(9, "lane.pmode")]
	}
	switch {
	case l.Mode == pSlice || l.Mode == pSliceResp:
		if l.End != EndComplete {
			l.Mode = pSync
		}
	case l.Mode == pErrorFlux:
		if l.End != EndError || len(l.Items) > 0 {
			l.Mode = pSync
		}
	case l.Mode == pMap && l.End == EndError:
		l.Mode = pMapFail
	}
	if l.Mode == pMapFail && l.End != EndError {
		l.Mode = pMap
	}
	l.sleeps = vsim.Flip(0.3, "lane.sleeps")
	if l.prod.Host && !p.NoBlock && l.Mode != pProc && l.Mode != pProcAsync {
		l.slow = vsim.Flip(0.06, "lane.slowsource")
		if l.prod.Block != nil && w.Nest == nil && vsim.Flip(p.Nested/3, "lane.dwell") {
			l.dwell = 1 + vsim.Choose(2, "lane.dwellhow")
			l.dwellAt = vsim.Choose(3, "lane.dwellat")
		}
	}
	if in && p.Flood == 0 && (len(l.Items) == 0 && l.End == EndComplete && vsim.Flip(0.5, "lane.nil") || vsim.Flip(0.04, "lane.nil")) {
		l.Items, l.End, l.Err, l.Mode = nil, EndComplete, "", pNil
		l.CancelAt = min(l.CancelAt, 0)
	}
	return l
}

// prop is the property that the interaction's kind belongs to.
func (i *Inter) prop() string {
	switch i.Kind {
	case nx.RR:
		return "C01"
	case nx.FNF:
		return "C06"
	case nx.RS:
		return "C02"
	}
	return "C03"
}

func (i *Inter) String() string {
	k := []string{"?", "request/response", "fire-and-forget", "request/stream", "request/channel"}[i.Kind]
	return fmt.Sprintf("%s %x (%s to %s, op %d)", k, i.ID&0xffffff, i.From.Name, i.To.Name, i.Op.Index)
}

func (i *Inter) delay(label string) int64 {
	switch vsim.Choose(5, label) {
	case 0, 1, 2:
		return 0
	case 3:
		return int64(vsim.Range(1, 2000, label+".us")) * 1000
	default:
		return int64(vsim.Range(1, 400, label+".ms")) * 1000000
	}
}

// Start makes the call. It runs on the calling side.
// callFor returns the caller for a call.
func (s *Side) callFor(i *Inter) nx.Caller {
	if s.CallFor != nil {
		return s.CallFor(i)
	}
	return s.Call()
}

func (w *W) Start(i *Inter) {
	c := i.From.callFor(i)
	if c == nil {
		Bad("no caller on side %s", i.From.Name)
		return
	}
	i.Started = true
	if i.Bad != 0 {
		i.Expect = false
	}
	m := nx.Msg{D: i.Req.D, M: i.meta()}
	vsim.Event("start %s bad=%d", i, i.Bad)
	switch i.Kind {
	case nx.RR:
		w.startRR(i, c, m)
	case nx.FNF:
		c.FNF(m)
		i.callDone = true
	case nx.RS:
		s := c.RS(m)
		i.Out.subscribe(s)
	case nx.RC:
		var in *nx.Src
		if i.In.Mode == pNil {
			i.In.ended = true
		} else {
			src := i.In.src()
			in = &src
		}
		s := c.RC(m, in)
		i.Out.subscribe(s)
	}
}

func (w *W) startRR(i *Inter, c nx.Caller, m nx.Msg) {
	o := i.One
	tok := w.newTok(&o.tok)
	s := c.RR(m)
	ok := func(v nx.Msg) {
		runtime.KeepAlive(tok)
		o.success(v)
	}
	er := func(e error) {
		runtime.KeepAlive(tok)
		o.failure(e)
	}
	switch o.Caller {
	case 0:
		s.Subscribe(ok, er, func(sig int) {
			runtime.KeepAlive(tok)
			o.finally(sig)
		})
	case 1:
		first := vsim.Flip(0.5, "rr.notifyfirst")
		note := func(sig int) {
			runtime.KeepAlive(tok)
			o.notified(s, sig)
		}
		if first {
			s.Notify(note)
			s.Async()
		} else {
			s.Async()
			s.Notify(note)
		}
	case 2:
		v, err := i.From.Block(s)
		if err != nil {
			o.failure(err)
		} else {
			o.success(v)
		}
		o.finally(map[bool]int{true: nx.SigError, false: nx.SigComplete}[err != nil])
	}
}

func (o *One) notified(s nx.Single, sig int) {
	o.notify++
	v, err := s.Get()
	if (err != nil) != (sig == nx.SigError) {
		o.i.w.fail("C01", "rr-get", "%s: notified with signal %d but Get gives error %v", o.i, sig, err)
	}
	if err != nil {
		o.failure(err)
	} else {
		o.success(v)
	}
	o.finally(sig)
}

func (o *One) success(v nx.Msg) {
	i, w := o.i, o.i.w
	vsim.Event("rr-value %x", i.ID&0xffffff)
	o.got++
	if o.got+o.gotErr > 1 {
		w.fail("C01", "rr-twice", "%s ended more than once", i)
	}
	switch {
	case i.Bad != 0:
		w.fail("C24", "bad-call-answered", "%s named no existing operation but got a value", i)
	case !o.settled:
		w.fail("C01", "rr-early", "%s got a value before its handler produced one", i)
	case o.IsErr:
		w.fail("C01", "rr-wrong", "%s got a value although its handler failed with %q", i, o.Err)
	default:
		w.same("C01", i, "answer", v, o.Val)
	}
	w.keep(i, "answer", v)
}

func (o *One) failure(err error) {
	i, w := o.i, o.i.w
	vsim.Event("rr-error %x %v", i.ID&0xffffff, err)
	o.gotErr++
	if o.got+o.gotErr > 1 {
		w.fail("C01", "rr-twice", "%s ended more than once", i)
	}
	if err == nil {
		w.fail("C01", "rr-nilerr", "%s failed without an error", i)
		return
	}
	if i.Bad != 0 || i.loose() {
		return
	}
	if !o.settled {
		w.fail("C01", "rr-early", "%s failed with %q before its handler produced an outcome", i, err)
	} else if !o.IsErr {
		w.fail("C01", "rr-wrong", "%s failed with %q although its handler answered", i, err)
	} else if err.Error() != o.Err {
		w.fail("C01", "rr-wrong", "%s failed with %q, its handler with %q", i, err, o.Err)
	}
}

func (o *One) finally(sig int) {
	o.fin++
	want := nx.SigComplete
	if o.gotErr > 0 {
		want = nx.SigError
	}
	if o.fin > 1 || o.got+o.gotErr == 0 || sig != want {
		o.i.w.fail("C01", "rr-final", "%s: final callback %d with signal %d, value=%d error=%d", o.i, o.fin, sig, o.got, o.gotErr)
	}
}

func (w *W) same(prop string, i *Inter, what string, got, want nx.Msg) bool {
	if !bytes.Equal(got.D, want.D) {
		w.fail(prop, "wrong-data", "%s: %s has wrong data: %s instead of %s", i, what, short(got.D), short(want.D))
		return false
	}
	if !bytes.Equal(got.M, want.M) {
		w.fail(prop, "wrong-metadata", "%s: %s has wrong metadata: %s instead of %s", i, what, short(got.M), short(want.M))
		return false
	}
	return true
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x...(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x(%d bytes)", b, len(b))
}

// keep remembers a received message; it must not change later.
func (w *W) keep(i *Inter, what string, m nx.Msg) {
	if w.Track {
		return
	}
	if len(w.kept) < 400 {
		w.kept = append(w.kept, kept{i, what, m, append([]byte(nil), m.D...), append([]byte(nil), m.M...)})
	}
}

// ---------------------------------------------------------------- handlers

// invoked finds the interaction a handler was invoked for.
func (w *W) invoked(op *Op, c nx.Ctx, m nx.Msg) *Inter {
	var i *Inter
	if len(m.D) >= 8 {
		i = w.byID[binary.BigEndian.Uint64(m.D)]
	}
	if i == nil {
		vsim.Event("spurious invocation of op %d kind %d", op.Index, op.Kind)
		if w.OnSpurious != nil {
			w.OnSpurious(op, c, m)
		} else if w.Strict {
			w.fail("C07", "spurious", "a handler was invoked with a payload that nobody sent: %s", short(m.D))
		}
		return nil
	}
	w = i.w
	i.Invoked++
	vsim.Event("invoke %s", i)
	switch {
	case !i.Started:
		w.fail(i.prop(), "invoked-early", "%s: handler invoked before the call was made", i)
	case i.Bad != 0:
		p := "C24"
		if i.Kind == nx.FNF {
			p = "C06"
		}
		w.fail(p, "bad-call-invoked", "%s names no operation (case %d) but a handler was invoked", i, i.Bad)
	case i.Invoked > 1:
		w.fail(i.prop(), "invoked-twice", "%s: handler invoked %d times", i, i.Invoked)
	case op != i.Op:
		w.fail("C24", "wrong-operation", "%s: handler of operation %d %s/%s invoked", i, op.Index, op.NS, op.Name)
	case c.Where != "" && c.Where != i.To.Name:
		w.fail("C24", "wrong-side", "%s: handler invoked on side %s", i, c.Where)
	}
	want := nx.Msg{D: i.Req.D, M: i.meta()}
	if !i.To.Full[i.Kind] && len(want.M) >= 8 {
		want.M = want.M[8:]
	}
	w.same(i.prop(), i, "request seen by the handler", m, want)
	w.keep(i, "request", m)
	if w.OnInvoke != nil {
		w.OnInvoke(i, c)
	}
	switch i.dwell {
	case 1:
		vsim.SleepNs(i.delay("dwell") + 1)
	case 2:
		i.nest(nil, i.prop())
	}
	return i
}

// phantom plans what a handler does about a call that nobody planned.
func (w *W) phantom(op *Op) *Inter {
	if w.Phantom == nil || vsim.Flip(0.3, "phantom.none") {
		return nil
	}
	f := w.Fork()
	f.Mute, f.byID = true, map[uint64]*Inter{}
	p := DefaultProfile()
	p.Nested = 0
	i := f.New(&p, op.Kind, w.Phantom, w.Phantom, op)
	i.Started = true
	w.phantoms = append(w.phantoms, i)
	return i
}

// Abandoned finds a handler of a call that nobody planned which was not told
// that the caller is gone.
func (w *W) Abandoned() (*Inter, string) {
	for _, i := range w.phantoms {
		switch {
		case i.To.dead() || i.To.Closed != nil && i.To.Closed():
		case i.In != nil && i.In.subscribed && !i.In.OverOrIdle():
			return i, "the handler that reads its input was not told its end"
		case i.Out != nil && i.Out.Orphaned():
			return i, "the producer of its answers was not cancelled"
		}
	}
	return nil, ""
}

var errSpurious = errors.New("spurious")

// HRR is the request/response handler of op.
func (w *W) HRR(op *Op) func(nx.Ctx, nx.Msg) nx.OneSrc {
	return func(c nx.Ctx, m nx.Msg) nx.OneSrc {
		i := w.invoked(op, c, m)
		if i == nil {
			i = w.phantom(op)
		}
		if i == nil || i.One == nil {
			return nx.OneSrc{Kind: nx.OneError, Err: errSpurious}
		}
		return i.One.src()
	}
}

// HFNF is the fire-and-forget handler of op.
func (w *W) HFNF(op *Op) func(nx.Ctx, nx.Msg) {
	return func(c nx.Ctx, m nx.Msg) { w.invoked(op, c, m) }
}

// HRS is the request/stream handler of op.
func (w *W) HRS(op *Op) func(nx.Ctx, nx.Msg) nx.Src {
	return func(c nx.Ctx, m nx.Msg) nx.Src {
		i := w.invoked(op, c, m)
		if i == nil {
			i = w.phantom(op)
		}
		if i == nil || i.Out == nil {
			return nx.Src{Kind: nx.SrcError, Err: errSpurious}
		}
		return i.Out.src()
	}
}

// HRC is the request/channel handler of op.
func (w *W) HRC(op *Op) func(nx.Ctx, nx.Msg, nx.Seq) nx.Src {
	return func(c nx.Ctx, m nx.Msg, in nx.Seq) nx.Src {
		i := w.invoked(op, c, m)
		if i == nil {
			i = w.phantom(op)
		}
		if i == nil || i.In == nil {
			return nx.Src{Kind: nx.SrcError, Err: errSpurious}
		}
		switch vsim.Choose(3, "rc.subwhen") {
		case 0, 1:
			i.In.subscribe(in)
		default:
			i.To.Async(i.delay("rc.sublate"), func() { i.In.subscribe(in) })
		}
		return i.Out.src()
	}
}

func (o *One) src() nx.OneSrc {
	i, w := o.i, o.i.w
	var e error
	if o.IsErr {
		e = errors.New(o.Err)
	}
	tok := w.newTok(&o.ptok)
	settle := func(k nx.OneSink) {
		o.settled = true
		if o.IsErr {
			k.Error(e)
		} else {
			k.Success(o.Val)
		}
	}
	held := func(k nx.OneSink) {
		runtime.KeepAlive(tok)
		if o.Hold {
			o.sink = k
			return
		}
		i.To.Async(i.delay("rr.delay"), func() { settle(k) })
	}
	switch o.Mode {
	case oJust:
		o.settled = true
		return nx.OneSrc{Kind: nx.OneJust, Val: o.Val}
	case oErr:
		o.settled = true
		return nx.OneSrc{Kind: nx.OneError, Err: e}
	case oProc:
		return nx.OneSrc{Kind: nx.OneProc, Ready: settle}
	case oProcAsync:
		return nx.OneSrc{Kind: nx.OneProc, Ready: held}
	case oCreateAsync:
		return nx.OneSrc{Kind: nx.OneCreate, Ready: held}
	case oMap, oMapFail:
		return nx.OneSrc{Kind: nx.OneMap, Ready: func(k nx.OneSink) {
			f := func() {
				o.settled = true
				k.Success(nx.Msg{D: []byte("unmapped")})
			}
			if vsim.Flip(0.5, "rr.mapasync") {
				i.To.Async(i.delay("rr.delay"), f)
			} else {
				f()
			}
		}, Map: func(nx.Msg) (nx.Msg, error) { return o.Val, e }}
	case oNested:
		return nx.OneSrc{Kind: nx.OneCreate, Ready: func(k nx.OneSink) {
			i.nest(func() { settle(k) }, "")
		}}
	case oNestedBlock:
		// blocks the handler itself
		i.nest(nil, "")
		o.settled = true
		if o.IsErr {
			return nx.OneSrc{Kind: nx.OneError, Err: e}
		}
		return nx.OneSrc{Kind: nx.OneJust, Val: o.Val}
	}
	return nx.OneSrc{Kind: nx.OneCreate, Ready: settle}
}

// nest calls back to the peer before the handler answers.
func (i *Inter) nest(then func(), as string) { i.nestFrom(i.To, i.From, then, as) }

// nestFrom calls the peer from the side that has something to do for i.
func (i *Inter) nestFrom(from, to *Side, then func(), as string) {
	var c *Inter
	w := i.w
	p := Profile{MaxData: 16, Err: 0.2}
	if w.Nest != nil {
		if c = w.Nest(i, &p); c == nil {
			if then != nil {
				then()
			}
			return
		}
		w = c.w
	} else {
		op := NestOp(w, from, to, nx.RR)
		if op == nil {
			if then != nil {
				then()
			}
			return
		}
		c = w.New(&p, nx.RR, from, to, op)
	}
	c.Parent, c.as = i, as
	if from == i.To {
		i.child = c
	}
	c.One.Caller = 0
	caller := from.callFor(c)
	if caller == nil {
		c.gone = true
		if then != nil {
			then()
		}
		return
	}
	c.Started = true
	m := nx.Msg{D: c.Req.D, M: c.meta()}
	vsim.Event("nested %s for %x", c, i.ID&0xffffff)
	if then == nil {
		v, err := from.Block(caller.RR(m))
		if err != nil {
			c.One.failure(err)
		} else {
			c.One.success(v)
		}
		c.One.finally(map[bool]int{true: nx.SigError, false: nx.SigComplete}[err != nil])
		return
	}
	caller.RR(m).Subscribe(c.One.success, c.One.failure, func(sig int) {
		c.One.finally(sig)
		then()
	})
}

// Settled tells whether the handler of a request/response has answered.
func (i *Inter) Settled() bool { return i.One == nil || i.One.settled }

// Pending tells whether something waits for Release or Resume.
func (w *W) Pending() bool {
	for _, i := range w.Inters {
		if o := i.One; o != nil && o.sink != nil && !o.settled {
			return true
		}
		for _, l := range []*Lane{i.Out, i.In} {
			if l != nil && l.subscribed && l.Total > 0 && l.fin == 0 && !l.cancelCalled {
				return true
			}
		}
	}
	return false
}

// NestOp picks the operation for a nested call (set by the world).
var NestOp func(w *W, from, to *Side, kind int) *Op

// Release answers the held request/responses.
func (w *W) Release() {
	for _, i := range w.Inters {
		if o := i.One; o != nil && o.sink != nil && !o.settled {
			o := o
			k := o.sink
			o.sink = nil
			i.To.Async(0, func() {
				o.settled = true
				if o.IsErr {
					k.Error(errors.New(o.Err))
				} else {
					k.Success(o.Val)
				}
			})
		}
	}
}

// ---------------------------------------------------------------- producing

func (l *Lane) src() nx.Src {
	w := l.i.w
	tok := w.newTok(&l.ptok)
	s := nx.Src{
		Ready: func(k nx.Sink) {
			runtime.KeepAlive(tok)
			l.ready(k)
		},
		OnReq: func(n int) {
			runtime.KeepAlive(tok)
			l.onReq(n)
		},
		OnCan: func() {
			runtime.KeepAlive(tok)
			l.onCan()
		},
	}
	switch l.Mode {
	case pProc, pProcAsync:
		s.Kind = nx.SrcProc
	case pSlice:
		s.Kind = nx.SrcSlice
		s.Items = l.Items
		l.emitted, l.ended, l.Subbed = len(l.Items), true, true
	case pSliceResp:
		s.Kind = nx.SrcSliceResponse
		s.Items = l.Items
		l.Subbed = true
		l.emitted, l.ended = len(l.Items), true
	case pErrorFlux:
		s.Kind = nx.SrcError
		s.Err = errors.New(l.Err)
		l.Subbed, l.ended = true, true
	case pMap, pMapFail:
		s.Kind = nx.SrcMap
		k := 0
		s.Map = func(m nx.Msg) (nx.Msg, error) {
			k++
			if l.Mode == pMapFail && k > len(l.Items) {
				l.ended = true
				return nx.Msg{}, errors.New(l.Err)
			}
			return l.Items[k-1], nil
		}
	default:
		s.Kind = nx.SrcCreate
		s.Early = l.Mode == pEager && len(l.Items)%2 == 0
	}
	return s
}

func (l *Lane) live() bool { return l.sink != nil && !l.ended && (l.pcancel == 0 || l.Ignore) }

func (l *Lane) ready(k nx.Sink) {
	if !l.In || l.Mode != pProc && l.Mode != pProcAsync {
		l.Subbed = true
	}
	l.sink = k
	vsim.Event("producer ready %s", l)
	if l.slow {
		vsim.SleepNs(l.i.delay("source.delay") + 1)
	}
	switch l.Mode {
	case pEager:
		l.asked += 1 << 20
		l.pump(1 << 30)
		l.asked -= 1 << 20
	case pEagerAsync:
		l.asked += 1 << 20
		l.prod.Async(l.i.delay("eager.delay"), func() {
			l.pump(1 << 30)
			l.asked -= 1 << 20
		})
	}
}

func (l *Lane) String() string {
	d := "out"
	if l.In {
		d = "in"
	}
	return fmt.Sprintf("%x.%s", l.i.ID&0xffffff, d)
}

func (l *Lane) isEager() bool { return l.Mode == pEager || l.Mode == pEagerAsync }

func (l *Lane) onReq(n int) {
	vsim.Event("asked %s %d", l, n)
	if n <= 0 {
		l.i.w.fail("C04", "demand-sign", "%s %s: producer asked for %d items", l.i, l, n)
	}
	l.asked += n
	l.Subbed = true
	if !l.isEager() && l.asked > l.granted {
		l.i.w.fail("C04", "demand-invented", "%s %s: producer asked for %d items, consumer granted %d", l.i, l, l.asked, l.granted)
	}
	switch l.Mode {
	case pAsync, pProcAsync:
		l.schedule()
	case pEager, pEagerAsync, pSlice, pSliceResp:
	default:
		if l.dwellAt--; l.dwellAt == -1 {
			switch l.dwell {
			case 1:
				vsim.SleepNs(l.i.delay("lane.dwell") + 1)
			case 2:
				vsim.Count("nested-in-request")
				l.i.nestFrom(l.prod, l.cons, nil, l.i.prop())
			}
		}
		l.pump(1 << 30)
	}
}

func (l *Lane) schedule() {
	if l.sched || !l.live() {
		return
	}
	l.sched = true
	d := int64(0)
	if l.sleeps {
		d = l.i.delay("lane.delay")
	}
	l.prod.Async(d, func() {
		l.sched = false
		if l.emitting {
			return // whoever emits goes on
		}
		l.pump(1 + vsim.Choose(4, "lane.batch"))
		if l.live() && (l.emitted < l.limit() || (l.emitted == len(l.Items) && l.End != EndNone)) {
			l.schedule()
		}
	})
}

// limit is how many items may be emitted.
func (l *Lane) limit() int { return min(l.asked, len(l.Items)) }

// pump emits up to max items, one at a time.
func (l *Lane) pump(max int) {
	if l.emitting {
		return
	}
	l.emitting = true
	for l.live() && max > 0 && l.emitted < l.limit() {
		max--
		m := l.Items[l.emitted]
		l.emitted++
		vsim.Event("emit %s #%d", l, l.emitted)
		l.sink.Next(m)
	}
	if l.live() && l.emitted == len(l.Items) && l.End != EndNone && max > 0 {
		if l.Mode == pMapFail {
			// the transform fails on one more item
			if l.asked > l.emitted {
				vsim.Event("emit %s failing", l)
				k := l.sink
				k.Next(nx.Msg{D: []byte("fail")})
				l.ended = true
			} else if !l.ended {
				l.ended = true
				l.sink.Error(errors.New(l.Err))
			}
		} else {
			l.ended = true
			vsim.Event("end %s %d", l, l.End)
			if l.End == EndError {
				l.sink.Error(errors.New(l.Err))
			} else {
				l.sink.Complete()
			}
		}
		if l.ended && l.i.w.Track {
			l.sink = nil
		}
	}
	l.emitting = false
}

func (l *Lane) onCan() {
	l.pcancel++
	vsim.Event("producer cancelled %s", l)
	if l.i.w.Track {
		l.sink = nil
	}
}

// ---------------------------------------------------------------- consuming

// subscription is what the consumer controls the sequence with.
func (l *Lane) subscription() nx.Sub {
	if l.sub == nil && l.raw != nil {
		l.sub = l.raw.Sub()
	}
	return l.sub
}

func (l *Lane) grant(n int) {
	sub := l.subscription()
	if sub == nil || l.fin > 0 || l.cancelCalled {
		return
	}
	l.granted += n
	l.reqs++
	vsim.Event("grant %s %d", l, n)
	sub.Request(n)
}

func (l *Lane) subscribe(s nx.Seq) {
	w := l.i.w
	tok := w.newTok(&l.tok)
	l.subscribed = true
	if l.CMode != cNone && l.CMode != cAsync && l.CMode != cBlock {
		l.raw = s
	}
	r := nx.Rcv{
		Next: func(m nx.Msg) {
			runtime.KeepAlive(tok)
			l.next(m)
		},
		Complete: func() {
			runtime.KeepAlive(tok)
			l.complete()
		},
		Error: func(err error) {
			runtime.KeepAlive(tok)
			l.error(err)
		},
		Finally: func(sig int) {
			runtime.KeepAlive(tok)
			l.finally(sig)
		},
	}
	const max = 1<<31 - 1
	if vsim.Flip(0.3, "lane.notify") && l.CMode != cAsync {
		s.Notify(func(sig int) {
			runtime.KeepAlive(tok)
			l.notified(sig)
		})
	} else {
		l.notify = -1
	}
	switch l.CMode {
	case cUnbounded:
		l.granted = max
		if l.CancelAt == 0 && !l.CanAsync {
			// needs the subscription before the first item
			r.OnRequest = func(sub nx.Sub) {
				if l.sub == nil {
					l.sub = sub
				}
				if !l.cancelCalled {
					sub.Request(max)
				}
			}
		}
		s.Subscribe(r)
		l.attached = true
	case cPages:
		r.OnRequest = func(sub nx.Sub) {
			runtime.KeepAlive(tok)
			l.sub = sub
			if l.got < l.granted {
				w.fail("C04", "page-early", "%s %s: page callback with %d of %d items delivered", l.i, l, l.got, l.granted)
			}
			l.grant(1 + vsim.Choose(4, "lane.page"))
		}
		s.Subscribe(r)
		l.attached = true
	case cManual, cAsyncReq:
		r.NoRequest = true
		s.Subscribe(r)
		l.attached = true
		if l.CMode == cManual {
			l.more()
		} else {
			l.askLater()
		}
	case cBlock:
		l.granted = max
		err := l.cons.BlockSeq(s, r)
		l.blockDone = true
		if l.fin == 0 {
			w.fail(l.i.prop(), "block-early", "%s %s: Block returned before the end", l.i, l)
		}
		if (err != nil) != (l.errored > 0) {
			w.fail(l.i.prop(), "block-result", "%s %s: Block returned %v after %d errors", l.i, l, err, l.errored)
		}
		return
	case cAsync:
		l.granted = max
		s.Notify(func(sig int) {
			runtime.KeepAlive(tok)
			// nothing else is seen of the sequence
			l.notify = -1
			l.fin++
			l.sig = sig
			l.got = len(l.Items)
			switch sig {
			case nx.SigComplete:
				l.completed = 1
			case nx.SigError:
				l.errored, l.errText = 1, "?"
			}
		})
		s.Async()
	case cNone:
		l.subscribed = false
	}
	if l.CancelAt == 0 && l.CMode != cNone {
		l.wantCancel(!l.cons.Host)
	}
	if w.Track && l.fin > 0 {
		l.sub, l.raw = nil, nil
	}
}

// more asks for the next items of a consumer that asks itself.
func (l *Lane) more() {
	n := 1 + vsim.Choose(4, "lane.more")
	if l.Total > 0 {
		n = min(n, l.Total-l.granted)
		if n <= 0 {
			return
		}
	}
	l.grant(n)
}

func (l *Lane) askLater() {
	if l.fin > 0 || l.cancelCalled || (l.Total > 0 && l.granted >= l.Total) || l.granted > len(l.Items)+3 {
		return
	}
	l.cons.Async(l.i.delay("lane.askdelay"), func() {
		l.more()
		l.askLater()
	})
}

// Resume makes stalled consumers ask again.
func (w *W) Resume() {
	for _, i := range w.Inters {
		for _, l := range []*Lane{i.Out, i.In} {
			if l != nil && l.attached && l.Total > 0 && l.fin == 0 && !l.cancelCalled {
				l := l
				l.Total = 0
				l.cons.Async(0, func() { l.grant(len(l.Items) + 5) })
			}
		}
	}
}

// wantCancel cancels as planned; inside tells that no item can be on its way to
// the consumer because this one's delivery, or the only thread, calls it.
func (l *Lane) wantCancel(inside bool) {
	if l.canSched {
		return
	}
	l.canSched = true
	if !l.CanAsync {
		l.cancelSync = inside
		l.cancel()
		return
	}
	l.cons.Async(l.i.delay("lane.candelay"), l.cancel)
}

func (l *Lane) cancel() {
	sub := l.subscription()
	if l.cancelCalled || sub == nil {
		return
	}
	l.cancelCalled = true
	l.i.w.Cancels++
	vsim.Event("cancel %s", l)
	vsim.Count("workload:cancel")
	sub.Cancel()
	l.cancelled = true
}

func (l *Lane) respects() bool { return !l.isEager() }

func (l *Lane) next(m nx.Msg) {
	i, w := l.i, l.i.w
	l.got++
	if l.cons.dead() && i.lossy() && i.Bad == 0 {
		// a guest that trapped may have missed items
		for k := l.got; k <= l.emitted; k++ {
			if x := l.Items[k-1]; bytes.Equal(x.D, m.D) && bytes.Equal(x.M, m.M) {
				l.got = k
				break
			}
		}
	}
	vsim.Event("item %s #%d", l, l.got)
	if l.fin > 0 || l.completed > 0 || l.errored > 0 {
		p := i.prop()
		if l.sig == nx.SigCancel {
			p = "C05"
		}
		sib := l.sibling()
		// the channel's other direction failed while this item was being delivered
		racing := l.errored == 1 && l.late == 0 && (i.loose() || sib != nil && sib.End == EndError && sib.ended)
		if racing {
			l.late++
		} else if !(l.sig == nx.SigCancel && !l.cancelSync && l.after == 0) {
			w.fail(p, "item-after-end", "%s %s: item %d delivered after the end", i, l, l.got)
		}
	}
	if l.cancelled {
		l.after++
		if l.after > 1 || (l.cancelSync && !i.loose()) {
			w.fail("C05", "item-after-cancel", "%s %s: %d items delivered after the cancellation", i, l, l.after)
		}
	}
	if i.Bad != 0 {
		w.fail("C24", "bad-call-answered", "%s names no operation but got an item", i)
		return
	}
	if l.got > l.emitted {
		w.fail(i.prop(), "item-invented", "%s %s: item %d delivered, %d emitted", i, l, l.got, l.emitted)
		return
	}
	w.same(i.prop(), i, fmt.Sprintf("%s item %d", l, l.got), m, l.Items[l.got-1])
	if l.respects() && l.got > l.granted {
		w.fail("C04", "flooded", "%s %s: %d items delivered, %d granted", i, l, l.got, l.granted)
	}
	w.keep(i, fmt.Sprintf("%s item %d", l, l.got), m)
	if l.CancelAt >= 0 && l.got >= l.CancelAt {
		l.wantCancel(true)
		if !l.CanAsync {
			return
		}
	}
	if l.CMode == cManual && l.got >= l.granted {
		l.more()
	} else if l.CMode == cAsyncReq && l.got >= l.granted && l.Total == 0 && vsim.Flip(0.5, "lane.asknow") {
		l.more()
	}
}

func (l *Lane) sibling() *Lane {
	if l.In {
		return l.i.Out
	}
	return l.i.In
}

// broken tells whether an error has ended (or will end) the whole channel.
func (l *Lane) broken() bool {
	s := l.sibling()
	return (l.End == EndError && l.ended) || (s != nil && s.End == EndError && s.ended)
}

// breaks tells whether the lane's error certainly ends the whole channel.
func (l *Lane) breaks() bool {
	return l.End == EndError && l.ended && !l.cancelCalled && l.i.Invoked > 0
}

func (l *Lane) isSlice() bool { return l.Mode == pSlice || l.Mode == pSliceResp }

func (l *Lane) complete() {
	i, w := l.i, l.i.w
	vsim.Event("complete %s", l)
	l.completed++
	l.terminal("completion")
	if i.Bad != 0 {
		w.fail("C24", "bad-call-answered", "%s names no operation but completed", i)
		return
	}
	switch {
	case !l.ended || l.End != EndComplete:
		w.fail(i.prop(), "end-invented", "%s %s: consumer got a completion the producer never signalled", i, l)
	case l.got != len(l.Items) && !(l.cons.dead() && i.lossy()):
		w.fail(i.prop(), "items-lost", "%s %s: completed after %d of %d items", i, l, l.got, len(l.Items))
	}
}

func (l *Lane) terminal(what string) {
	i, w := l.i, l.i.w
	if l.completed+l.errored > 1 {
		w.fail(i.prop(), "end-twice", "%s %s: second ending (%s)", i, l, what)
	}
	if l.fin > 0 {
		p := i.prop()
		if l.sig == nx.SigCancel {
			p = "C05"
		}
		w.fail(p, "end-late", "%s %s: %s after the final callback", i, l, what)
	}
}

func (l *Lane) error(err error) {
	i, w := l.i, l.i.w
	vsim.Event("error %s %v", l, err)
	l.errored++
	l.terminal("error")
	if err == nil {
		w.fail(i.prop(), "nil-error", "%s %s: error signal without an error", i, l)
		return
	}
	l.errText = err.Error()
	if i.Bad != 0 || i.loose() {
		return
	}
	s := l.sibling()
	own := l.End == EndError && l.ended && l.errText == l.Err
	sib := s != nil && s.End == EndError && s.ended && l.errText == s.Err
	if !own && !sib {
		w.fail(i.prop(), "error-invented", "%s %s: consumer got error %q that nobody signalled", i, l, l.errText)
	} else if own && !sib && l.got != len(l.Items) && !(s != nil && s.End == EndError && s.ended) {
		w.fail(i.prop(), "items-lost", "%s %s: failed after %d of %d items", i, l, l.got, len(l.Items))
	}
}

func (l *Lane) finally(sig int) {
	i, w := l.i, l.i.w
	vsim.Event("finally %s %d", l, sig)
	l.fin++
	l.sig = sig
	if l.fin > 1 {
		w.fail(i.prop(), "final-twice", "%s %s: final callback called again with %d", i, l, sig)
	}
	l.consistent()
	if w.Track {
		l.sub, l.raw = nil, nil
	}
}

func (l *Lane) consistent() {
	i, w := l.i, l.i.w
	ok := false
	switch l.sig {
	case nx.SigComplete:
		ok = l.completed == 1 && l.errored == 0
	case nx.SigError:
		ok = l.completed == 0 && l.errored == 1
	case nx.SigCancel:
		ok = l.completed == 0 && l.errored == 0 && l.cancelCalled
	}
	if !ok {
		p := i.prop()
		if l.cancelCalled {
			p = "C05"
		}
		w.fail(p, "final-signal", "%s %s: final signal %d with %d completions, %d errors, cancelled=%v", i, l, l.sig, l.completed, l.errored, l.cancelCalled)
	}
}

func (l *Lane) notified(sig int) {
	l.notify++
	l.notifySig = sig
	if l.notify > 1 {
		l.i.w.fail(l.i.prop(), "notify", "%s %s: completion callback called again with signal %d", l.i, l, sig)
	}
}

// ---------------------------------------------------------------- judging

// Check judges the history at quiescence.
func (w *W) Check() {
	for _, i := range w.Inters {
		if !i.Started || i.gone {
			continue
		}
		switch i.Kind {
		case nx.RR:
			w.checkRR(i)
		case nx.FNF:
			if i.Bad == 0 && i.Invoked != 1 && !(i.loose() && i.Invoked == 0) {
				w.fail("C06", "fnf-lost", "%s: handler invoked %d times", i, i.Invoked)
			}
		default:
			w.checkInvoked(i)
			w.checkLane(i.Out)
			if i.In != nil {
				w.checkLane(i.In)
			}
		}
	}
	for _, k := range w.kept {
		if !bytes.Equal(k.m.D, k.d) || !bytes.Equal(k.m.M, k.x) {
			w.fail(k.i.prop(), "message-changed", "%s: %s changed after it was delivered: %s became %s", k.i, k.what, short(k.d), short(k.m.D))
		}
	}
}

func (w *W) checkInvoked(i *Inter) {
	if i.loose() || i.Bad != 0 || i.Invoked > 0 {
		return
	}
	o := i.Out
	if o.reqs == 0 && (o.CMode == cManual || o.CMode == cAsyncReq) {
		return // never asked
	}
	if o.cancelCalled {
		return // possibly before the request was sent
	}
	if w.Relay && i.In != nil && i.In.End == EndError && i.In.ended && o.fin > 0 {
		return // failed before it was passed on
	}
	w.fail(i.prop(), "not-invoked", "%s: the handler was never invoked", i)
}

// Messages of a limited world.
const (
	fits = iota
	edge // fits or not, depending on the frame around it
	over
)

func (w *W) sizeOf(m nx.Msg) int {
	n := len(m.D) + len(m.M)
	switch {
	case w.Limit == 0 || n+32 <= w.Limit:
		return fits
	case n <= w.Limit:
		return edge
	}
	return over
}

// largest is the size of the largest of the first n items.
func (l *Lane) largest(n int) (x int) {
	for _, m := range l.Items[:n] {
		x = max(x, l.i.w.sizeOf(m))
	}
	return
}

// loose tells whether the interaction may fail without anybody's doing.
func (i *Inter) loose() bool {
	w := i.w
	if w.Limit == 0 || w.Lossy || i.lossy() {
		return i.lossy()
	}
	if w.sizeOf(nx.Msg{D: i.Req.D, M: i.meta()}) != fits || i.One != nil && (w.sizeOf(i.One.Val) != fits || len(i.One.Err)+32 > w.Limit) {
		return true
	}
	for _, l := range []*Lane{i.Out, i.In} {
		if l != nil && (l.largest(len(l.Items)) != fits || len(l.Err)+32 > w.Limit) {
			return true
		}
	}
	return false
}

// checkOver checks an interaction with messages that are too large.
func (w *W) checkOver(i *Inter) {
	big := w.sizeOf(nx.Msg{D: i.Req.D, M: i.meta()})
	if big == over && i.Invoked > 0 {
		w.fail(i.prop(), "oversize-arrived", "%s: a request that is too large arrived", i)
	}
	if o := i.One; o != nil && o.fin == 0 && i.Bad == 0 {
		if big == over || i.Invoked > 0 && o.settled {
			w.fail("C20", "call-hangs", "%s: a message is too large and the call never ended", i)
		}
	}
	if o := i.One; o != nil && o.got > 0 && w.sizeOf(o.Val) == over {
		w.fail("C20", "oversize-arrived", "%s: an answer that is too large arrived", i)
	}
	l, in := i.Out, i.In
	if l == nil || i.Bad != 0 {
		return
	}
	asks := l.reqs > 0 || (l.CMode != cManual && l.CMode != cAsyncReq && l.CMode != cPages)
	if l.subscribed && asks && l.fin == 0 && !l.cancelCalled {
		why := ""
		switch {
		case big == over:
			why = "its request is too large"
		case i.Invoked > 0 && !l.isSlice() && l.largest(l.emitted) == over:
			why = "one of its items is too large"
		case i.Invoked > 0 && !l.isSlice() && l.ended && l.emitted == l.got:
			why = "it has ended"
		case in != nil && !in.isSlice() && in.largest(in.emitted) == over && i.Invoked > 0 && !in.cancelCalled:
			why = "an item of the other direction is too large"
		}
		if why != "" {
			w.fail("C20", "call-hangs", "%s %s: %s but it never ended", i, l, why)
		}
	}
	for _, l := range []*Lane{i.Out, i.In} {
		if l != nil && l.fin > 0 && l.sig == nx.SigError && l.Subbed && !l.ended && l.pcancel == 0 {
			w.fail("C20", "producer-runs", "%s %s: failed but the producer was never told", i, l)
		}
	}
}

// must tells whether an interaction that may be cut off has to have ended.
func (w *W) must(i *Inter, produced bool) bool {
	if w.Lossy && !w.Maybe {
		return true
	}
	return i.Invoked == 0 || produced || i.To.Closed != nil && i.To.Closed()
}

func (w *W) checkRR(i *Inter) {
	if i.loose() && !i.lossy() {
		w.checkOver(i)
		return
	}
	o := i.One
	if o.fin == 0 {
		switch {
		case i.lossy() && i.From.dead():
		case i.Bad != 0:
			w.fail("C24", "bad-call-hangs", "%s names no operation (case %d) and never ended", i, i.Bad)
		case i.lossy():
			if w.must(i, o.settled) {
				w.fail("C09", "call-hangs", "%s never ended", i)
			}
		case i.Invoked == 0:
			w.fail("C01", "rr-not-invoked", "%s: the handler was never invoked", i)
		case o.Hold && !o.settled:
		case o.settled:
			w.fail("C01", "rr-unanswered", "%s: the handler produced its outcome but the caller never got it", i)
		case i.child != nil:
			if c := i.child.One; c.fin > 0 || i.child.gone {
				Bad("%s: nested call ended without an outcome", i)
			} // else reported for the child
		case i.lossy():
		default:
			w.fail("C01", "rr-stuck", "%s: the handler was invoked but its outcome was never asked for", i)
		}
	}
}

func (w *W) checkLane(l *Lane) {
	i := l.i
	s := l.sibling()
	if i.loose() && !i.lossy() {
		if !l.In {
			w.checkOver(i)
		}
		return
	}
	if i.Bad != 0 {
		if i.lossy() && i.From.dead() {
			return
		}
		if !l.In && l.fin == 0 && !(l.reqs == 0 && (l.CMode == cManual || l.CMode == cAsyncReq)) {
			w.fail("C24", "bad-call-hangs", "%s names no operation (case %d) and never ended", i, i.Bad)
		}
		if l.In && l.Subbed && !l.ended && l.pcancel == 0 {
			w.fail("C24", "bad-call-producer", "%s %s: refused call left its producer running", i, l)
		}
		return
	}
	asks := l.reqs > 0 || (l.CMode != cManual && l.CMode != cAsyncReq && l.CMode != cPages)
	if i.lossy() {
		if l.subscribed && !l.In && asks && l.fin == 0 && !l.cancelCalled && !l.cons.dead() && w.must(i, l.ended && !l.isSlice()) {
			w.fail("C09", "call-hangs", "%s %s never ended", i, l)
		}
		cut := w.Lossy && !w.Maybe || i.Out.fin > 0 && i.Out.sig == nx.SigError
		if cut && l.Subbed && !l.ended && l.pcancel == 0 && !l.prod.dead() {
			w.fail("C09", "producer-runs", "%s %s: the producer was never cancelled", i, l)
		}
		return
	}
	if l.subscribed {
		if l.fin > 0 && (l.notify == 0 || l.notify > 0 && l.notifySig != l.sig) {
			w.fail(i.prop(), "notify", "%s %s: completion callback called %d times with %d, final signal %d", i, l, l.notify, l.notifySig, l.sig)
		}
		mustEnd := l.cancelled
		if i.Invoked > 0 && (asks || l.In) {
			mustEnd = mustEnd || l.breaks() || s != nil && s.breaks()
			if l.isSlice() {
				mustEnd = mustEnd || l.granted > 0 && l.granted >= len(l.Items)
			} else {
				mustEnd = mustEnd || l.ended
			}
		}
		if mustEnd && l.fin == 0 {
			switch {
			case l.cancelled:
				w.fail("C05", "cancel-no-final", "%s %s: cancelled but the final callback never ran", i, l)
			default:
				w.fail(i.prop(), "no-ending", "%s %s: the producer ended (or the channel failed) but the consumer never got an ending (got %d of %d items)", i, l, l.got, len(l.Items))
			}
		}
		if l.fin > 0 {
			l.consistent()
		}
		if l.fin == 0 && !l.cancelCalled && i.Invoked > 0 {
			if !l.isSlice() {
				if l.got != l.emitted && l.CMode != cAsync {
					w.fail(i.prop(), "items-lost", "%s %s: %d items emitted, %d delivered at quiescence", i, l, l.emitted, l.got)
				}
				if l.Subbed && !l.isEager() && l.asked != l.granted {
					w.fail("C04", "demand-lost", "%s %s: consumer granted %d, producer was asked for %d", i, l, l.granted, l.asked)
				}
			} else if want := min(l.granted, len(l.Items)); l.got != want {
				w.fail("C04", "demand-lost", "%s %s: consumer granted %d but got %d of %d items", i, l, l.granted, l.got, len(l.Items))
			}
			if l.End != EndNone && asks && l.granted > len(l.Items) {
				w.fail(i.prop(), "stuck", "%s %s: granted %d, asked %d, emitted %d, got %d of %d items and never ended", i, l, l.granted, l.asked, l.emitted, l.got, len(l.Items))
			}
		}
		if l.fin > 0 && l.sig == nx.SigCancel && l.Subbed && !l.ended && l.pcancel == 0 {
			w.fail("C05", "producer-runs", "%s %s: cancelled but the producer was never told", i, l)
		}
		if l.fin > 0 && l.sig == nx.SigError && l.Subbed && !l.ended && l.pcancel == 0 {
			w.fail(i.prop(), "producer-runs", "%s %s: the channel failed but the producer was never told", i, l)
		}
	}
	if l.pcancel > 0 && !(l.cancelCalled || l.broken() || l.Mode == pMapFail) {
		w.fail(i.prop(), "producer-cancelled", "%s %s: the producer was cancelled although nobody cancelled", i, l)
	}
	_ = s
}

// Forget drops what the harness itself holds of an interaction, so that only
// the code under test can keep it reachable.
func (w *W) Forget(i *Inter) {
	for _, l := range []*Lane{i.Out, i.In} {
		if l != nil {
			l.sink, l.sub, l.raw = nil, nil, nil
		}
	}
	if i.One != nil {
		i.One.sink = nil
	}
}

// Alive lists the tokens of an interaction that are still reachable.
func (i *Inter) Alive() (out []string) {
	add := func(p weak.Pointer[token], what string) {
		if p != (weak.Pointer[token]{}) && p.Value() != nil {
			out = append(out, what)
		}
	}
	if o := i.One; o != nil {
		add(o.tok, "caller's callbacks")
		add(o.ptok, "handler's answer")
	}
	for _, l := range []*Lane{i.Out, i.In} {
		if l != nil {
			add(l.tok, l.String()+" consumer's callbacks")
			add(l.ptok, l.String()+" producer's callbacks")
		}
	}
	return
}

// Ended tells whether nothing of the interaction is in progress any more.
func (i *Inter) Ended() bool {
	switch i.Kind {
	case nx.RR:
		return i.One.fin > 0
	case nx.FNF:
		return true
	}
	for _, l := range []*Lane{i.Out, i.In} {
		if l == nil {
			continue
		}
		if l.fin == 0 && (l.subscribed || l.Subbed && !l.ended && l.pcancel == 0) {
			return false
		}
	}
	return true
}

// OverOrIdle tells whether the consumer got an ending, cancelled or never asked.
func (l *Lane) OverOrIdle() bool {
	return l.fin > 0 || l.cancelCalled || l.reqs == 0 && (l.CMode == cManual || l.CMode == cAsyncReq)
}

// Settled tells whether the handler has produced the outcome.
func (o *One) Settled() bool { return o.settled }

// Serving tells whether the producer is certainly (or else possibly) at work.
func (l *Lane) Serving(certain bool) bool {
	if l.isSlice() {
		return !certain && l.fin == 0
	}
	return !l.ended && l.pcancel == 0 && !(certain && l.broken())
}

// Orphaned tells whether the producer was asked for items and waits for more
// demand or a cancellation.
func (l *Lane) Orphaned() bool {
	return !l.isSlice() && l.asked > 0 && !l.ended && l.pcancel == 0
}

// Hung finds a call that has not ended on the calling side.
func (w *W) Hung() (*Inter, string) {
	for _, i := range w.Inters {
		switch {
		case !i.Started:
		case i.Kind == nx.RR && !i.Ended() || i.Out != nil && !i.Out.OverOrIdle():
			return i, "the caller was not told its end"
		case i.In != nil && i.In.Orphaned():
			return i, "the producer of its input was not told its end"
		}
	}
	return nil, ""
}

// Finish makes an endless producer come to its end.
func (l *Lane) Finish() {
	if l.sink == nil || l.ended || l.pcancel > 0 || l.emitting {
		return
	}
	k := l.sink
	l.prod.Async(0, func() {
		if l.ended || l.pcancel > 0 {
			return
		}
		l.ended = true
		vsim.Event("finish %s", l)
		k.Error(errSpurious)
	})
}

// W is the history that the interaction belongs to.
func (i *Inter) W() *W { return i.w }

// Burn uses up stream identifiers: what a side prepares but never asks for is
// not sent, so that the identifiers of what follows are large.
func Burn(sides ...*Side) {
	for _, s := range sides {
		if !vsim.Flip(0.003, "burn") {
			continue
		}
		n := []int{150, 33000, 66000}[vsim.Choose(3, "burn.ids")]
		s.Async(0, func() {
			c := s.Call()
			vsim.Quick(func() {
				for ; c != nil && n > 0; n-- {
					c.RR(nx.Msg{M: make([]byte, 8)})
				}
			})
		})
	}
}
