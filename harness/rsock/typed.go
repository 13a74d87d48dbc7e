package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
	context "vsim/scontext"
)

// What happens to one of the values of a typed call.
const (
	sound       = iota
	otherForm   // the same value as another implementation may write it
	grownRecord // a record has a field that the receiver does not know
	truncated   // the end is missing
	misplaced   // some part has a type that it can not have
	flipped     // some bits are others
	madeUp      // something that nobody writes
	another     // the encoding of another type
	evilRecord  // a record has an unknown field that nobody writes
	unsupported // a value that has no encoding
)

var damages = []string{"sound", "other-form", "unknown-field", "truncated", "misplaced-part", "bit-flip", "made-up", "other-type", "bad-unknown-field", "unsupported"}

// typedCall is a call whose messages are typed values.
type typedCall struct {
	id     uint32
	kind   int
	k      *valueKind
	vals   []any // the first goes with the request
	want   []string
	damage int
	at     int  // the value that is damaged
	back   bool // it is damaged on its way back
	spoilt []byte
	lossy  bool // its connection may be lost
	peer   *peer
	server bool // called by the server
	step   bool // the caller asks for one value after the other

	started bool
	heard   int // how often the handler ran
	got     []string
	over    bool
	late    bool // a value arrived after that
	err     error
}

func (c *typedCall) String() string {
	s := fmt.Sprintf("call %d (kind %d, %s", c.id, c.kind, c.k.name)
	if c.damage != sound {
		s += fmt.Sprintf(", value %d is %s", c.at, damages[c.damage])
		if c.back {
			s += " on its way back"
		}
	}
	return s + ")"
}

func (c *typedCall) fail(class, format string, a ...any) {
	hlib.Fail("C30", class, "%s: %s", c, fmt.Sprintf(format, a...))
}

// typedEnv makes typed calls.
type typedEnv struct {
	*env
	calls []*typedCall
	kept  []keptValue
}

// keptValue is a value that an application received and holds on to.
type keptValue struct {
	c    *typedCall
	v    any
	text string
}

func clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%s... (%d)", strings.ToValidUTF8(s[:300], ""), len(s))
	}
	return strings.ToValidUTF8(s, "")
}

// encoded checks what the encoder made of a value.
func (t *typedEnv) encoded(c *typedCall, v any) []byte {
	p, err := c.k.enc(v)
	if err != nil {
		c.fail("encode-failed", "%s can not be encoded: %v", clip(canon(v)), err)
		return nil
	}
	var b strings.Builder
	rest, ok := wire(&b, p.Data())
	switch {
	case strings.Contains(c.k.wire(v), "NaN="):
		// the simulated range over a map misses keys that differ from themselves
	case !ok:
		c.fail("bad-encoding", "%s is encoded as %s, which is no MessagePack", clip(canon(v)), clip(fmt.Sprintf("%x", p.Data())))
	case len(rest) > 0:
		c.fail("wrong-size", "%d bytes more than needed follow the encoding of %s", len(rest), clip(canon(v)))
	case b.String() != c.k.wire(v):
		c.fail("bad-encoding", "%s is encoded as %s", clip(c.k.wire(v)), clip(b.String()))
	}
	return p.Data()
}

// send encodes value n on its way to the other side.
func (t *typedEnv) send(c *typedCall, n int, v any, back bool) (payload.Payload, error) {
	if c.damage != sound && c.at == n && c.back == back {
		vsim.Count("typed-" + damages[c.damage])
		if c.damage == unsupported {
			bad := unsupportedValues[int(c.id)%len(unsupportedValues)]
			if r, ok := v.(record); ok {
				r.Any = bad
				bad = r
			}
			p, err := c.k.enc(bad)
			if err == nil {
				c.fail("encoded-unsupported", "a %T is encoded as %x", unsupportedValues[int(c.id)%len(unsupportedValues)], p.Data())
			}
			return nil, err
		}
		return payload.New(bytes.Clone(c.spoilt)), nil
	}
	return payload.New(t.encoded(c, v)), nil
}

var unsupportedValues = []any{
	make(chan int), []any{1, struct{}{}}, map[string]any{"x": func() {}}, complex(1, 2), []any{[]any{nil, struct{ X int }{1}}},
	map[any]any{"x": struct{}{}}, []any{map[int64]any{4: make(chan int)}},
}

// receive decodes value n.
func (t *typedEnv) receive(c *typedCall, n int, p payload.Payload, back bool) (any, error) {
	vsim.Event("value %d of typed call %d", n, c.id)
	v, err := c.k.dec(p)
	hit := c.at == n && c.back == back
	if !hit || c.damage <= grownRecord {
		if err != nil {
			c.fail("decode-failed", "value %d (%s) can not be decoded: %v", n, clip(c.want[n]), err)
			return v, err
		}
		text := canon(v)
		if text != c.want[n] && !(c.damage > grownRecord && c.at == n) {
			c.fail("changed-value", "value %d was %s and arrived as %s", n, clip(c.want[n]), clip(text))
		}
		t.keep(c, v, text)
		return v, nil
	}
	if err != nil {
		return v, err
	}
	switch c.damage {
	case truncated:
		c.fail("decoded-truncated", "value %d (%s) was cut to %d bytes and arrived as %s", n, clip(c.want[n]), len(p.Data()), clip(canon(v)))
	case misplaced:
		c.fail("decoded-misplaced", "value %d (%s) was written as %s and arrived as %s", n, clip(c.want[n]), clip(fmt.Sprintf("%x", p.Data())), clip(canon(v)))
	case another:
		var b strings.Builder
		if rest, ok := wire(&b, p.Data()); ok && len(rest) == 0 {
			sent, got := b.String(), canon(v)
			// texts and bytes may be written as arrays of small numbers, and
			// times as texts
			a, b := class(sent), class(got)
			if a != "" && a != "[" && a != "{" && a == b && sent != got || a != "" && b != "" && b != "s" && b != "b" && a+b != "st" && a != b && c.k.plain {
				c.fail("changed-value", "value %d was written as %s and arrived as %s", n, clip(sent), clip(got))
			}
		}
	}
	t.keep(c, v, canon(v))
	return v, nil
}

// class tells values apart of which one is never taken for another.
func class(s string) string {
	if s == "true" || s == "false" {
		return "bool"
	}
	if s[0] == '[' || s[0] == '{' {
		return s[:1]
	}
	if len(s) > 1 && s[1] == ':' && strings.IndexByte("istb", s[0]) >= 0 {
		return s[:1]
	}
	return ""
}

func (t *typedEnv) keep(c *typedCall, v any, text string) {
	if c.k.hurt != nil {
		c.k.hurt(v)
		if now := canon(v); now != text {
			c.fail("shared-value", "appending to one part of %s changed it to %s", clip(text), clip(now))
		}
	}
	if len(t.kept) < 200 {
		t.kept = append(t.kept, keptValue{c, v, text})
	}
}

func (t *typedEnv) of(p payload.Payload) *typedCall {
	m := p.Metadata()
	if len(m) < 4 {
		hlib.Fail("C30", "wrong-metadata", "a handler got the metadata %x", m)
		return nil
	}
	id := binary.BigEndian.Uint32(m[len(m)-4:])
	if int(id) >= len(t.calls) {
		hlib.Fail("C30", "wrong-metadata", "a handler got the metadata %x", m)
		return nil
	}
	c := t.calls[id]
	if c.heard++; c.heard > 1 || !c.started {
		c.fail("heard-twice", "its handler was called %d times", c.heard)
	}
	return c
}

// echo reads the request and sends its value back.
func (t *typedEnv) rr(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	c := t.of(p)
	v, err := t.receive(c, 0, p, false)
	if err != nil {
		return mono.Error[payload.Payload](err)
	}
	one := mono.Just(v)
	if c.step {
		one = mono.Create(func(s mono.Sink[any]) {
			vsim.GoHarness(func() {
				vsim.SleepNs(int64(vsim.Range(0, 50, "typed.think")) * ms)
				s.Success(v)
			})
		})
	}
	return mono.Map(one, func(v any) (payload.Payload, error) { return t.send(c, 0, v, true) })
}

func (t *typedEnv) fnf(ctx context.Context, p payload.Payload) {
	c := t.of(p)
	_, _ = t.receive(c, 0, p, false)
}

func (t *typedEnv) rs(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	c := t.of(p)
	if _, err := t.receive(c, 0, p, false); err != nil {
		return flux.Error[payload.Payload](err)
	}
	n := 0
	return flux.Map(flux.FromSlice(c.vals), func(v any) (payload.Payload, error) {
		n++
		return t.send(c, n-1, v, true)
	})
}

func (t *typedEnv) rc(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	c := t.of(p)
	if _, err := t.receive(c, 0, p, false); err != nil {
		return flux.Error[payload.Payload](err)
	}
	n, m := 0, 0
	up := flux.Map(in, func(p payload.Payload) (any, error) {
		n++
		return t.receive(c, n, p, false)
	})
	return flux.Map(up, func(v any) (payload.Payload, error) {
		m++
		return t.send(c, m, v, true)
	})
}

// plan draws a call.
func (t *typedEnv) plan(kinds []*valueKind, items int) *typedCall {
	d := newDice("typed.value")
	d.small = items > 8
	c := &typedCall{id: uint32(len(t.calls)), kind: 1 + vsim.Choose(4, "typed.kind"), k: kinds[vsim.Choose(len(kinds), "typed.type")]}
	c.step = vsim.Flip(0.3, "typed.step")
	n := 1
	if c.kind == nx.RS || c.kind == nx.RC {
		n = 1 + vsim.Choose(items, "typed.items")
	}
	for ; n > 0; n-- {
		v := c.k.gen(d)
		c.vals = append(c.vals, v)
		c.want = append(c.want, canon(v))
	}
	t.calls = append(t.calls, c)
	if items > 8 || !vsim.Flip(0.4, "typed.damaged") {
		return c
	}
	c.damage = 1 + vsim.Choose(unsupported, "typed.damage")
	c.at = vsim.Choose(len(c.vals), "typed.at")
	c.back = c.kind != nx.FNF && vsim.Flip(0.5, "typed.back")
	if c.kind == nx.RC && c.at == 0 {
		c.back = false // what goes with the request of a channel does not come back
	}
	if c.kind == nx.RS && c.at > 0 {
		c.back = true
	}
	own := t.encoded(c, c.vals[c.at])
	isRecord := isRecord(c.k) && c.k.name != "records"
	switch c.damage {
	case otherForm:
		switch f := c.vals[c.at].(type) {
		case float32, ratio, float64, score:
			if c.k.name != "Any" {
				c.spoilt = floatForm(reflect.ValueOf(f).Float())
				break
			}
			c.spoilt, _ = reform(d, nil, own)
		default:
			c.spoilt, _ = reform(d, nil, own)
		}
	case grownRecord:
		if !isRecord {
			c.damage = sound
			return c
		}
		c.spoilt = grown(d, own, foreign(d, 4))
	case evilRecord:
		if !isRecord {
			c.damage = madeUp
			c.spoilt = evilValue(d)
			return c
		}
		c.spoilt = grown(d, own, evilValue(d))
	case truncated:
		c.spoilt = own[:d.n(len(own))]
	case misplaced:
		if c.spoilt = misplace(d, own, isRecord); c.spoilt == nil || c.k.name == "Any" || c.k.name == "records" {
			c.damage = sound
			return c
		}
	case flipped:
		c.spoilt = bytes.Clone(own)
		for k := 1 + d.n(3); k > 0; k-- {
			c.spoilt[d.n(min(len(own), 1+d.n(len(own))))] ^= 1 << d.n(8)
		}
	case madeUp:
		c.spoilt = evilValue(d)
	case another:
		o := kinds[d.n(len(kinds))]
		p, err := o.enc(o.gen(d))
		if err != nil {
			c.fail("encode-failed", "a value of %s can not be encoded: %v", o.name, err)
			return c
		}
		c.spoilt = p.Data()
		if d.flip(0.5) {
			c.spoilt, _ = reform(d, nil, c.spoilt)
		}
	case unsupported:
		if c.k.name != "Any" && !isRecord {
			c.damage = sound
		}
	}
	return c
}

func (t *typedEnv) start(c *typedCall) {
	caller, ctx := invoke.Caller(c.peer.h), c.peer.ctx
	if c.server {
		caller, ctx = t.accepted[c.peer.n], t.ctx
	}
	c.started = true
	p, err := t.send(c, 0, c.vals[0], false)
	if err != nil { // the application does not call
		c.over, c.err = true, err
		return
	}
	meta := make([]byte, 12)
	binary.BigEndian.PutUint32(meta[8:], c.id)
	req := payload.New(p.Data(), meta)
	vsim.Event("typed call %d", c.id)
	end := func(err error) {
		if c.over {
			c.fail("ended-twice", "it ended with %v and then with %v", c.err, err)
		}
		c.over, c.err = true, err
	}
	next := func(v any) {
		if c.over {
			// its input or its connection failed while the value was being delivered
			racing := c.err != nil && !c.late && (c.lossy || c.kind == nx.RC && c.damage == unsupported && !c.back)
			if !racing {
				c.fail("late-value", "a value arrived after the end")
			}
			c.late = true
			return
		}
		c.got = append(c.got, canon(v))
	}
	down := c.n0()
	dec := func(p payload.Payload) (any, error) {
		down++
		if down-1 >= len(c.vals) {
			c.fail("too-many", "more than %d values arrived", len(c.vals))
			return nil, nil
		}
		return t.receive(c, down-1, p, true)
	}
	switch c.kind {
	case nx.FNF:
		caller.FireAndForget(ctx, req)
		c.over = true
	case nx.RR:
		m := mono.Map(caller.RequestResponse(ctx, req), dec)
		if c.step {
			v, err := m.Block()
			if err == nil {
				next(v)
			}
			end(err)
			return
		}
		m.Subscribe(mono.Subscribe[any]{OnSuccess: func(v any) { next(v); end(nil) }, OnError: end})
	default:
		var f flux.Flux[payload.Payload]
		if c.kind == nx.RS {
			f = caller.RequestStream(ctx, req)
		} else {
			up := 0
			f = caller.RequestChannel(ctx, req, flux.Map(flux.FromSlice(c.vals[1:]), func(v any) (payload.Payload, error) {
				up++
				return t.send(c, up, v, false)
			}))
		}
		sub := flux.Subscribe[any]{OnNext: next, OnComplete: func() { end(nil) }, OnError: end}
		if c.step {
			var s rx.Subscription
			sub.OnRequest = func(x rx.Subscription) { s = x; x.Request(1) }
			sub.OnNext = func(v any) { next(v); s.Request(1) }
		}
		flux.Map(f, dec).Subscribe(sub)
	}
}

// n0 is the first value that comes back.
func (c *typedCall) n0() int {
	if c.kind == nx.RC {
		return 1
	}
	return 0
}

func (t *typedEnv) judge(c *typedCall) {
	if c.started && !c.over {
		c.fail("call-hangs", "it has not ended although nothing happens any more")
	}
	if !c.started || c.kind == nx.FNF {
		if c.started && c.err == nil && c.heard != 1 && !c.lossy {
			c.fail("call-lost", "its handler was called %d times", c.heard)
		}
		return
	}
	want := c.want[c.n0():]
	at := c.at - c.n0()
	hit := c.damage > grownRecord
	request := hit && c.at == 0 && !c.back // the whole call fails
	if request {
		at = 0
	}
	for k, g := range c.got {
		if k >= len(want) {
			c.fail("too-many", "%d values came back instead of %d", len(c.got), len(want))
			return
		}
		if g != want[k] && !(hit && k == at) && !(request && c.kind == nx.RR) {
			c.fail("changed-value", "value %d was %s and came back as %s", k, clip(want[k]), clip(g))
		}
	}
	switch {
	case c.lossy && c.err != nil:
	case c.err == nil:
		if len(c.got) != len(want) {
			c.fail("values-lost", "it was completed after %d of %d values", len(c.got), len(want))
		}
		if hit && (c.damage == truncated || c.damage == unsupported) {
			c.fail("no-error", "it was completed without an error")
		}
	case !hit:
		c.fail("call-failed", "it failed after %d values: %v", len(c.got), c.err)
	case c.damage == unsupported && !c.back && len(c.got) <= at:
		// a caller whose upload fails hears no more from its call
	case request && len(c.got) > 0 || !request && len(c.got) != at:
		c.fail("values-lost", "it failed after %d instead of %d values: %v", len(c.got), at, c.err)
	}
}

func isRecord(k *valueKind) bool { return strings.HasPrefix(strings.ToLower(k.name), "rec") }

func typed(shape func(k *valueKind) bool, fault, flood bool) func() {
	return func() {
		t := &typedEnv{env: newEnv()}
		invoke.ExportRequestResponse("typed", "rr", t.rr)
		invoke.ExportFireAndForget("typed", "fnf", t.fnf)
		invoke.ExportRequestStream("typed", "rs", t.rs)
		invoke.ExportRequestChannel("typed", "rc", t.rc)
		healthyNet()
		t.serve()
		t.connectAll(2)
		var kinds []*valueKind
		for _, k := range valueKinds() {
			if shape == nil || shape(k) {
				kinds = append(kinds, k)
			}
		}
		items, max := 8, 24
		if flood {
			k := vsim.Choose(len(kinds), "typed.onetype")
			kinds, items, max = kinds[k:k+1], 200, 6
			if vsim.Flip(0.6, "typed.crowd") {
				items, max = 3, 50
			}
		}
		for n := 1 + vsim.Choose(max, "typed.calls"); n > 0; n-- {
			c := t.plan(kinds, items)
			c.peer = t.peers[vsim.Choose(len(t.peers), "typed.peer")]
			c.server = vsim.Flip(0.4, "typed.side")
		}
		total := 0
		for _, c := range t.calls {
			total += len(c.spoilt)
			for _, w := range c.want {
				total += len(w)
			}
		}
		// many bytes do not travel in many pieces
		if n := vsim.NetCfg(); total > 3000 {
			n.Window = 1 << 30
			if total > 20000 {
				n.TinyP, n.SegP, n.ShortP = 0, n.SegP/10, n.ShortP/10
			}
		}
		if fault {
			q := t.peers[vsim.Choose(len(t.peers), "victim")]
			for _, c := range t.calls {
				c.lossy = c.peer == q
			}
			vsim.GoHarness(func() {
				vsim.SleepNs(int64(vsim.Range(0, 600, "kill.at")) * ms)
				q.cconn.Reset()
			})
		}
		for rest := t.calls; len(rest) > 0; {
			n := 1 + vsim.Choose(min(len(rest), 4), "typed.together")
			mine := rest[:n]
			rest = rest[n:]
			pause := vsim.Flip(0.4, "typed.pause")
			vsim.GoHarness(func() {
				for _, c := range mine {
					if pause {
						vsim.SleepNs(int64(vsim.Range(0, 300, "typed.sleep")) * ms)
					}
					t.start(c)
				}
			})
		}
		t.idle()
		for _, c := range t.calls {
			t.judge(c)
		}
		// what arrived stays as it is
		for _, k := range t.kept {
			if now := canon(k.v); now != k.text {
				k.c.fail("unstable-value", "the value %s has become %s", clip(k.text), clip(now))
			}
		}
		if !fault {
			for _, q := range t.peers {
				if q.done {
					hlib.Fail("C30", "connection-lost", "the connection of %s ended: %v", q.name, q.err)
				}
			}
		}
	}
}

func init() {
	hlib.Register("C30", "values", 5, typed(nil, false, false))
	hlib.Register("C30", "records", 3, typed(isRecord, false, false))
	hlib.Register("C30", "any", 2, typed(func(k *valueKind) bool { return k.name == "Any" }, false, false))
	hlib.Register("C30", "flood", 3, typed(func(k *valueKind) bool { return !isRecord(k) && k.name != "Any" }, false, true))
	hlib.Register("C30", "lost", 1, typed(nil, true, false))
}
