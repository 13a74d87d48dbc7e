// Package nx holds neutral types through which the harness talks to several
// copies of the code under test (the host's and each guest's) alike.
package nx

// Msg is a payload.
type Msg struct{ D, M []byte }

// Sink takes the signals of a sequence.
type Sink interface {
	Next(Msg)
	Complete()
	Error(error)
}

// OneSink takes the signals of a single value.
type OneSink interface {
	Success(Msg)
	Error(error)
}

// Sub is a subscription.
type Sub interface {
	Request(int)
	Cancel()
}

// Kinds of sequences built from the repository's constructors.
const (
	SrcCreate        = iota // flux.Create
	SrcProc                 // flux.NewProcessor
	SrcSlice                // flux.FromSlice
	SrcError                // flux.Error
	SrcMap                  // flux.Map over flux.Create
	SrcSliceResponse        // flux.SliceResponse in flux.Create
)

// Src describes a sequence that the harness produces.
type Src struct {
	Kind  int
	Items []Msg
	Err   error
	Early bool        // the sink is handed out before OnSubscribe is called
	Ready func(Sink)  // the sink, once per subscription
	OnReq func(n int) // demand
	OnCan func()      // cancellation
	Map   func(Msg) (Msg, error)
}

// Signals of a final callback.
const (
	SigComplete = 0
	SigCancel   = 1
	SigError    = 2
)

// Rcv is a subscriber.
type Rcv struct {
	Next      func(Msg)
	Complete  func()
	Error     func(error)
	Finally   func(sig int)
	OnRequest func(Sub)
	NoRequest bool
}

// Seq is a sequence handed out by the code under test.
type Seq interface {
	Subscribe(Rcv)
	Sub() Sub
	Notify(func(sig int))
	Async()
	Raw() any
}

// Single value handed out by the code under test.
type Single interface {
	Subscribe(ok func(Msg), err func(error), fin func(sig int))
	Notify(func(sig int))
	Async()
	Get() (Msg, error)
	Raw() any
}

// Kinds of single values.
const (
	OneJust = iota
	OneError
	OneCreate
	OneProc
	OneMap
)

// OneSrc describes a single value that the harness produces.
type OneSrc struct {
	Kind  int
	Val   Msg
	Err   error
	Ready func(OneSink)
	Map   func(Msg) (Msg, error)
}

// Caller makes calls.
type Caller interface {
	RR(Msg) Single
	FNF(Msg)
	RS(Msg) Seq
	RC(m Msg, in *Src) Seq
	Import(kind int, ns, op string) uint32
}

// Interaction kinds (the numbering of operations.RequestType).
const (
	RR  = 1
	FNF = 2
	RS  = 3
	RC  = 4
)

// Ctx tells a handler about its call.
type Ctx struct {
	Where  string // value of the context key Side
	Parent uint32 // stream id of the call, 0 if unknown
	Call   uint64 // value of the context key CallKey
}

// SideKey is the context key for Ctx.Where.
type SideKey struct{}

// CallKey is the context key for Ctx.Call.
type CallKey struct{}

// Exporter registers handlers.
type Exporter interface {
	RR(ns, op string, f func(Ctx, Msg) OneSrc)
	FNF(ns, op string, f func(Ctx, Msg))
	RS(ns, op string, f func(Ctx, Msg) Src)
	RC(ns, op string, f func(Ctx, Msg, Seq) Src)
	Import(kind int, ns, op string) uint32
}

// Guest is what a guest program gets.
type Guest struct {
	Universe int
	Caller   Caller
	Export   Exporter
}

// Programs maps program names to what they do when they start.
var Programs = map[string]func(*Guest){}
