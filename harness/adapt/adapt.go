package adapt

import (
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"vsim/nx"
	context "vsim/scontext"
)

// P makes a payload.
func P(m nx.Msg) payload.Payload { return payload.New(m.D, m.M) }

// M reads a payload.
func M(p payload.Payload) nx.Msg {
	if p == nil {
		return nx.Msg{}
	}
	return nx.Msg{D: p.Data(), M: p.Metadata()}
}

type sink struct{ s flux.Sink[payload.Payload] }

func (s sink) Next(m nx.Msg)   { s.s.Next(P(m)) }
func (s sink) Complete()       { s.s.Complete() }
func (s sink) Error(err error) { s.s.Error(err) }

type onesink struct{ s mono.Sink[payload.Payload] }

func (s onesink) Success(m nx.Msg) { s.s.Success(P(m)) }
func (s onesink) Error(err error)  { s.s.Error(err) }

// Flux builds a sequence.
func Flux(src *nx.Src) flux.Flux[payload.Payload] {
	if src == nil {
		return nil
	}
	on := flux.OnSubscribe{Request: src.OnReq, Cancel: src.OnCan}
	create := func() flux.Flux[payload.Payload] {
		return flux.Create(func(k flux.Sink[payload.Payload]) {
			if src.Early && src.Ready != nil {
				src.Ready(sink{k})
			}
			k.OnSubscribe(on)
			if !src.Early && src.Ready != nil {
				src.Ready(sink{k})
			}
		})
	}
	switch src.Kind {
	case nx.SrcProc:
		p := flux.NewProcessor[payload.Payload]()
		p.OnSubscribe(on)
		if src.Ready != nil {
			src.Ready(sink{p})
		}
		return p
	case nx.SrcSlice:
		var l []payload.Payload
		for _, m := range src.Items {
			l = append(l, P(m))
		}
		return flux.FromSlice(l)
	case nx.SrcSliceResponse:
		return flux.Create(func(k flux.Sink[payload.Payload]) {
			var l []payload.Payload
			for _, m := range src.Items {
				l = append(l, P(m))
			}
			f := flux.SliceResponse(k, l)
			k.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
				if src.OnReq != nil {
					src.OnReq(n)
				}
				f(n)
			}, Cancel: src.OnCan})
		})
	case nx.SrcError:
		return flux.Error[payload.Payload](src.Err)
	case nx.SrcMap:
		return flux.Map(create(), func(p payload.Payload) (payload.Payload, error) {
			if src.Map == nil {
				return p, nil
			}
			m, err := src.Map(M(p))
			if err != nil {
				return nil, err
			}
			return P(m), nil
		})
	}
	return create()
}

// Mono builds a single value.
func Mono(src *nx.OneSrc) mono.Mono[payload.Payload] {
	create := func() mono.Mono[payload.Payload] {
		return mono.Create(func(k mono.Sink[payload.Payload]) { src.Ready(onesink{k}) })
	}
	switch src.Kind {
	case nx.OneJust:
		return mono.Just[payload.Payload](P(src.Val))
	case nx.OneError:
		return mono.Error[payload.Payload](src.Err)
	case nx.OneProc:
		p := mono.NewProcessor[payload.Payload]()
		src.Ready(onesink{p})
		return p
	case nx.OneMap:
		return mono.Map(create(), func(p payload.Payload) (payload.Payload, error) {
			if src.Map == nil {
				return p, nil
			}
			m, err := src.Map(M(p))
			if err != nil {
				return nil, err
			}
			return P(m), nil
		})
	}
	return create()
}

type seq struct{ f flux.Flux[payload.Payload] }

// Seq wraps a sequence.
func Seq(f flux.Flux[payload.Payload]) nx.Seq {
	if f == nil {
		return nil
	}
	return seq{f}
}

// Rcv converts a subscriber.
func Rcv(r nx.Rcv) flux.Subscribe[payload.Payload] {
	s := flux.Subscribe[payload.Payload]{OnComplete: r.Complete, NoRequest: r.NoRequest}
	if r.Error != nil {
		s.OnError = r.Error
	}
	if r.Next != nil {
		s.OnNext = func(p payload.Payload) { r.Next(M(p)) }
	}
	if r.OnRequest != nil {
		s.OnRequest = func(x rx.Subscription) { r.OnRequest(x) }
	}
	if r.Finally != nil {
		s.Finally = func(x rx.SignalType) { r.Finally(int(x)) }
	}
	return s
}

func (s seq) Subscribe(r nx.Rcv)     { s.f.Subscribe(Rcv(r)) }
func (s seq) Notify(f func(sig int)) { s.f.Notify(func(x rx.SignalType) { f(int(x)) }) }
func (s seq) Async()                 { s.f.Async() }
func (s seq) Raw() any               { return s.f }
func (s seq) Sub() nx.Sub {
	x := s.f.Subscription()
	if x == nil {
		return nil
	}
	return x
}

type single struct{ m mono.Mono[payload.Payload] }

// Single wraps a single value.
func Single(m mono.Mono[payload.Payload]) nx.Single {
	if m == nil {
		return nil
	}
	return single{m}
}

func (s single) Subscribe(ok func(nx.Msg), err func(error), fin func(int)) {
	sub := mono.Subscribe[payload.Payload]{OnError: err}
	if ok != nil {
		sub.OnSuccess = func(p payload.Payload) { ok(M(p)) }
	}
	if fin != nil {
		sub.Finally = func(x rx.SignalType) { fin(int(x)) }
	}
	s.m.Subscribe(sub)
}
func (s single) Notify(f func(sig int)) { s.m.Notify(func(x rx.SignalType) { f(int(x)) }) }
func (s single) Async()                 { s.m.Async() }
func (s single) Raw() any               { return s.m }
func (s single) Get() (nx.Msg, error) {
	p, err := s.m.Get()
	if err != nil {
		return nx.Msg{}, err
	}
	return M(p), nil
}

type caller struct {
	c   invoke.Caller
	ctx context.Context
}

// Caller wraps a caller.
func Caller(ctx context.Context, c invoke.Caller) nx.Caller { return caller{c, ctx} }

func (c caller) RR(m nx.Msg) nx.Single { return Single(c.c.RequestResponse(c.ctx, P(m))) }
func (c caller) FNF(m nx.Msg)          { c.c.FireAndForget(c.ctx, P(m)) }
func (c caller) RS(m nx.Msg) nx.Seq    { return Seq(c.c.RequestStream(c.ctx, P(m))) }
func (c caller) RC(m nx.Msg, in *nx.Src) nx.Seq {
	return Seq(c.c.RequestChannel(c.ctx, P(m), Flux(in)))
}
func (c caller) Import(kind int, ns, op string) uint32 { return imp(c.c, kind, ns, op) }

type importer interface {
	ImportRequestResponse(ns, op string) uint32
	ImportFireAndForget(ns, op string) uint32
	ImportRequestStream(ns, op string) uint32
	ImportRequestChannel(ns, op string) uint32
}

func imp(c importer, kind int, ns, op string) uint32 {
	switch kind {
	case nx.RR:
		return c.ImportRequestResponse(ns, op)
	case nx.FNF:
		return c.ImportFireAndForget(ns, op)
	case nx.RS:
		return c.ImportRequestStream(ns, op)
	default:
		return c.ImportRequestChannel(ns, op)
	}
}

// Cx reads what a handler's context tells.
func Cx(ctx context.Context) nx.Ctx {
	var c nx.Ctx
	if ctx == nil {
		return c
	}
	if w, ok := ctx.Value(nx.SideKey{}).(string); ok {
		c.Where = w
	}
	c.Call, _ = ctx.Value(nx.CallKey{}).(uint64)
	if st, ok := proxy.FromContext(ctx); ok {
		c.Parent = st.StreamID()
	}
	return c
}

// HRR adapts a handler.
func HRR(f func(nx.Ctx, nx.Msg) nx.OneSrc) invoke.RequestResponseHandler {
	return func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		src := f(Cx(ctx), M(p))
		return Mono(&src)
	}
}

// HFNF adapts a handler.
func HFNF(f func(nx.Ctx, nx.Msg)) invoke.FireAndForgetHandler {
	return func(ctx context.Context, p payload.Payload) { f(Cx(ctx), M(p)) }
}

// HRS adapts a handler.
func HRS(f func(nx.Ctx, nx.Msg) nx.Src) invoke.RequestStreamHandler {
	return func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		src := f(Cx(ctx), M(p))
		return Flux(&src)
	}
}

// HRC adapts a handler.
func HRC(f func(nx.Ctx, nx.Msg, nx.Seq) nx.Src) invoke.RequestChannelHandler {
	return func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		src := f(Cx(ctx), M(p), Seq(in))
		return Flux(&src)
	}
}

type exporter struct{}

// Exports registers handlers in this copy's global table.
func Exports() nx.Exporter { return exporter{} }

func (exporter) RR(ns, op string, f func(nx.Ctx, nx.Msg) nx.OneSrc) {
	invoke.ExportRequestResponse(ns, op, HRR(f))
}
func (exporter) FNF(ns, op string, f func(nx.Ctx, nx.Msg)) {
	invoke.ExportFireAndForget(ns, op, HFNF(f))
}
func (exporter) RS(ns, op string, f func(nx.Ctx, nx.Msg) nx.Src) {
	invoke.ExportRequestStream(ns, op, HRS(f))
}
func (exporter) RC(ns, op string, f func(nx.Ctx, nx.Msg, nx.Seq) nx.Src) {
	invoke.ExportRequestChannel(ns, op, HRC(f))
}
func (exporter) Import(kind int, ns, op string) uint32 {
	switch kind {
	case nx.RR:
		return invoke.ImportRequestResponse(ns, op)
	case nx.FNF:
		return invoke.ImportFireAndForget(ns, op)
	case nx.RS:
		return invoke.ImportRequestStream(ns, op)
	default:
		return invoke.ImportRequestChannel(ns, op)
	}
}
