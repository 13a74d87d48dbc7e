// The comp world runs single components under concurrent use.
package main

import (
	"context"
	"fmt"
	"sort"

	"github.com/nanobus/iota/go/internal/buffer"
	"github.com/nanobus/iota/go/internal/socket"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	sctx "vsim/scontext"
)

const (
	ms     = int64(1000000)
	settle = 3600 * 1000 * ms
)

func fail(class, format string, a ...any) { hlib.Fail(hlib.Active(), class, format, a...) }

func idle() {
	if !vsim.WaitIdle(settle) {
		fail("no-quiescence", "the system is still busy after %d simulated seconds", settle/1000/ms)
	}
}

func nap(p float64) {
	if vsim.Flip(p, "nap") {
		vsim.SleepNs(int64(vsim.Choose(5, "nap.ms")) * ms)
	}
}

// history records operations.
type history struct {
	k hlib.Clock
	h []*hlib.Call
}

func (h *history) do(g int, name string, arg int, f func(c *hlib.Call)) *hlib.Call {
	c := &hlib.Call{Name: name, Arg: arg, G: g, From: h.k.Tick()}
	h.h = append(h.h, c)
	f(c)
	c.To = h.k.Tick()
	vsim.Event("%s", c)
	return c
}

// ---------------------------------------------------------------- registry

type stream struct {
	id uint32
	n  int // which registration
}

func (s *stream) Context() sctx.Context    { return sctx.Background() }
func (s *stream) StreamID() uint32         { return s.id }
func (s *stream) OnNext(p payload.Payload) {}
func (s *stream) OnComplete()              {}
func (s *stream) OnError(err error)        {}

var _ context.Context

const slots = 8

// registryState holds the registration of every stream, 0 for none.
type registryState [slots]int

func (r registryState) size() (n int) {
	for _, v := range r {
		if v != 0 {
			n++
		}
	}
	return
}

func applyRegistry(s registryState, c *hlib.Call) (registryState, bool) {
	switch c.Name {
	case "add":
		s[c.Arg%slots] = c.Out
		return s, true
	case "get":
		return s, c.Out == s[c.Arg%slots]
	case "remove":
		s[c.Arg%slots] = 0
		return s, true
	case "size":
		return s, c.Out == s.size()
	case "empty":
		return s, c.OK == (s.size() == 0)
	}
	panic(c.Name)
}

func registry() {
	var l proxy.Lookup
	var h history
	ids := make([]uint32, slots)
	for k := range ids {
		ids[k] = uint32(1 + k)
		if vsim.Flip(0.1, "id.large") {
			ids[k] = 1<<31 - 1 - uint32(k)
		}
	}
	gs := 1 + vsim.Choose(5, "goroutines")
	each := 40 / gs
	reg := 0
	for g := 0; g < gs; g++ {
		n := 1 + vsim.Choose(min(each, 10), "ops")
		vsim.GoHarness(func() {
			// streams g, g+gs, ... are registered by this goroutine only
			var own []int
			for k := g; k < slots; k += gs {
				own = append(own, k)
			}
			in := map[int]bool{}
			for ; n > 0; n-- {
				nap(0.1)
				k := own[vsim.Choose(len(own), "slot")]
				any := vsim.Choose(slots, "slot")
				switch vsim.Choose(8, "op") {
				case 0, 1, 2:
					if in[k] {
						h.do(g, "remove", k, func(*hlib.Call) { l.Remove(ids[k]) })
						in[k] = false
						continue
					}
					in[k] = true
					reg++
					s := &stream{ids[k], reg}
					h.do(g, "add", k, func(c *hlib.Call) { c.Out = s.n; l.Add(s) })
				case 3:
					h.do(g, "remove", any, func(*hlib.Call) { l.Remove(ids[any]) })
					if k := any; k%gs == g {
						in[k] = false
					}
				case 4, 5:
					h.do(g, "get", any, func(c *hlib.Call) {
						s, ok := l.Get(ids[any])
						c.OK = ok
						if ok != (s != nil) {
							fail("registry", "Get returned %v, %v", s, ok)
						}
						if ok {
							if s.StreamID() != ids[any] {
								fail("registry", "Get(%d) returned stream %d", ids[any], s.StreamID())
							}
							c.Out = s.(*stream).n
						}
					})
				case 6:
					h.do(g, "size", 0, func(c *hlib.Call) { c.Out = l.Size() })
				case 7:
					h.do(g, "empty", 0, func(c *hlib.Call) { c.OK = l.IsEmpty() })
				}
			}
			// what others removed is unknown here: clean up
			for _, k := range own {
				if vsim.Flip(0.5, "clean") {
					h.do(g, "remove", k, func(*hlib.Call) { l.Remove(ids[k]) })
				}
			}
		})
	}
	idle()
	for k := range ids {
		if len(h.h) >= 55 {
			break
		}
		h.do(99, "get", k, func(c *hlib.Call) {
			if s, ok := l.Get(ids[k]); ok {
				c.Out, c.OK = s.(*stream).n, true
			}
		})
	}
	h.do(99, "size", 0, func(c *hlib.Call) { c.Out = l.Size() })
	if ok, decided := hlib.Linearizable(h.h, registryState{}, applyRegistry, 200000); !ok {
		fail("not-atomic", "no order of the operations explains their results: %v", h.h)
	} else if !decided {
		vsim.Count("undecided")
	}
}

// crowd: many streams are registered at the same time. Each goroutine registers
// and removes streams of its own, which those of others do not affect.
func crowd() {
	var l proxy.Lookup
	gs := 1 + vsim.Choose(4, "goroutines")
	each := []int{12, 40, 150, 600}[vsim.Choose(4, "crowd")] / gs
	registered := 0 // certainly
	pending := 0    // being registered or removed
	all := map[uint32]*stream{}
	changes := map[uint32]int{}
	for g := 0; g < gs; g++ {
		vsim.GoHarness(func() {
			in := map[uint32]*stream{}
			var ids []uint32
			id := func() uint32 { return uint32(1 + g + gs*vsim.Choose(2*each, "id")) }
			get := func(k uint32) {
				s, ok := l.Get(k)
				if want := in[k]; ok != (want != nil) || ok && s != proxy.Stream(want) {
					fail("not-atomic", "Get(%d) returned %v, %v; registered is %v", k, s, ok, want)
				}
			}
			for n := each + vsim.Choose(each+1, "ops"); n > 0; n-- {
				nap(0.01)
				k := id()
				if len(ids) > 0 && vsim.Flip(0.2, "remove") {
					j := vsim.Choose(len(ids), "which")
					k = ids[j]
					if in[k] == nil {
						ids[j] = ids[len(ids)-1]
						ids = ids[:len(ids)-1]
						continue
					}
					pending++
					registered--
					changes[k]++
					delete(all, k)
					l.Remove(k)
					delete(in, k)
					pending--
					get(k)
					continue
				}
				if in[k] == nil {
					s := &stream{k, n}
					pending++
					changes[k]++
					l.Add(s)
					in[k] = s
					all[k] = s
					registered++
					pending--
					ids = append(ids, k)
				}
				get(k)
				get(id())
				switch {
				case pending == 0 && vsim.Flip(0.1, "size"):
					least := registered
					n := l.Size()
					if pending == 0 && registered == least && gs == 1 && n != least {
						fail("not-atomic", "the size is %d with %d streams", n, least)
					}
				case vsim.Flip(0.02, "streams"):
					before := map[uint32]int{}
					for k := range all {
						before[k] = changes[k]
					}
					found := map[uint32]bool{}
					for _, s := range l.Streams() {
						if found[s.StreamID()] {
							fail("not-atomic", "stream %d is listed twice", s.StreamID())
						}
						found[s.StreamID()] = true
					}
					missing := uint32(0)
					for k, c := range before {
						if changes[k] == c && !found[k] && (missing == 0 || k < missing) {
							missing = k
						}
					}
					if missing != 0 {
						fail("not-atomic", "stream %d is registered but not listed", missing)
					}
				}
			}
			for _, k := range ids {
				get(k)
			}
		})
	}
	idle()
	if n := l.Size(); n != registered {
		fail("not-atomic", "the size is %d with %d streams", n, registered)
	}
	var left []uint32
	for k := range all {
		left = append(left, k)
	}
	sort.Slice(left, func(i, j int) bool { return left[i] < left[j] })
	for _, k := range left {
		s := all[k]
		if x, ok := l.Get(k); !ok || x != proxy.Stream(s) {
			fail("not-atomic", "Get(%d) returned %v, %v; registered is %v", k, x, ok, s)
		}
		l.Remove(k)
		if x, ok := l.Get(k); ok {
			fail("not-atomic", "Get(%d) returned %v after it was removed", k, x)
		}
	}
	if n := l.Size(); n != 0 || !l.IsEmpty() {
		fail("not-atomic", "the size is %d without streams", n)
	}
}

// ---------------------------------------------------------------- identifiers

func identifiers() {
	client := vsim.Flip(0.5, "client")
	start := uint64(0)
	switch vsim.Choose(4, "start") {
	case 1: // near the end of the space
		start = 1<<30 - 1 - uint64(vsim.Choose(30, "before"))
	case 2: // later rounds
		start = uint64(1+vsim.Choose(8, "round"))<<30 - 1 - uint64(vsim.Choose(30, "before"))
	case 3:
		start = uint64(vsim.Choose(1<<30, "anywhere"))
	}
	var next func() (uint32, bool)
	if client {
		p := socket.ClientStreamIDs(start)
		next = p.Next
	} else {
		p := socket.ServerStreamIDs(start)
		next = p.Next
	}
	seen := map[uint32]bool{}
	vsim.Event("client=%v start=%d", client, start)
	for g := 1 + vsim.Choose(6, "goroutines"); g > 0; g-- {
		n := 1 + vsim.Choose(16, "ids")
		vsim.GoHarness(func() {
			for ; n > 0; n-- {
				nap(0.1)
				id, _ := next()
				vsim.Event("id %d", id)
				switch {
				case id == 0:
					fail("zero", "a stream got the identifier zero (start %d)", start)
				case id > 1<<31-1:
					fail("range", "identifier %d does not fit in 31 bits", id)
				case client != (id&1 == 1):
					fail("partition", "identifier %d belongs to the other endpoint (client %v)", id, client)
				case seen[id]:
					fail("duplicate", "identifier %d was handed out twice (start %d)", id, start)
				}
				seen[id] = true
			}
		})
	}
	idle()
}

// ---------------------------------------------------------------- buffer

type item struct{ g, n int }

func unbounded() {
	b := buffer.NewUnbounded[item]()
	type producer struct {
		began, returned, accepted int
	}
	var ps []*producer
	disposals, disposed := 0, 0
	received := map[int]int{}
	total, accepted, inflight := 0, 0, 0
	ended := false
	gs := 1 + vsim.Choose(4, "producers")
	dispose := func() {
		disposals++
		vsim.Event("dispose")
		b.Dispose()
		disposed++
	}
	for g := 0; g < gs; g++ {
		p := &producer{}
		ps = append(ps, p)
		n, pauses := vsim.Choose(12, "puts"), 0.2
		if vsim.Flip(0.03, "burst") {
			// The backlog has no bound.
			n, pauses = 1<<uint(6+vsim.Choose(7, "burst.size")), 0
		} else if vsim.Flip(0.00002, "burst.huge") {
			n, pauses = 70000+vsim.Choose(70000, "burst.size"), 0
		}
		vsim.GoHarness(func() {
			for ; n > 0; n-- {
				nap(pauses)
				late := disposed > 0
				p.began++
				inflight++
				ok := b.Put(item{g, p.began})
				inflight--
				p.returned++
				vsim.Event("put %d.%d %v", g, p.began, ok)
				switch {
				case ok && late:
					fail("put-after-disposal", "a put after the disposal was accepted")
				case !ok && disposals == 0:
					fail("put-refused", "a put was refused although the buffer is not disposed")
				case ok:
					p.accepted = p.began
					accepted++
				}
			}
		})
	}
	for k := vsim.Choose(3, "disposals"); k > 0; k-- {
		vsim.GoHarness(func() {
			vsim.SleepNs(int64(vsim.Choose(12, "dispose.ms")) * ms)
			dispose()
		})
	}
	slow := vsim.Flip(0.3, "consumer.slow")
	consume := func() {
		c := b.Get()
		for {
			x, ok := vsim.Recv2(c)
			if !ok {
				vsim.Event("end")
				ended = true
				if disposals == 0 {
					fail("end-early", "the consumer saw the end before any disposal")
				}
				return
			}
			vsim.Event("got %d.%d", x.g, x.n)
			total++
			if x.n <= received[x.g] {
				fail("order", "value %d.%d after %d.%d", x.g, x.n, x.g, received[x.g])
			} else if x.n != received[x.g]+1 {
				fail("lost", "value %d.%d after %d.%d", x.g, x.n, x.g, received[x.g])
			}
			if x.n > ps[x.g].began {
				fail("invented", "value %d.%d was never put", x.g, x.n)
			}
			received[x.g] = x.n
			if slow {
				nap(0.7)
			}
			b.Load()
		}
	}
	check := func(when string) {
		for g, p := range ps {
			if p.began != p.returned {
				fail("put-blocks", "%s: put %d.%d does not return", when, g, p.began)
			}
		}
	}
	if vsim.Flip(0.3, "consumer.late") {
		idle()
		check("without a consumer")
	}
	vsim.GoHarness(consume)
	idle()
	check("with a consumer")
	if total != accepted {
		fail("waiting", "%d values were accepted but the consumer got %d", accepted, total)
	}
	if disposed > 0 && !ended {
		fail("no-end", "disposed but the consumer does not see the end")
	}
	if disposed == 0 {
		dispose()
		idle()
		if !ended {
			fail("no-end", "disposed but the consumer does not see the end")
		}
	}
	if b.Put(item{}) {
		fail("put-after-disposal", "a put after the disposal was accepted")
	}
	dispose()
	if total != accepted {
		fail("lost", "%d values were accepted but the consumer got %d", accepted, total)
	}
}

// ---------------------------------------------------------------- handles

type instance struct{ n int }

// handleState has a bit for every registered instance.
type handleState uint64

func applyHandles(s handleState, c *hlib.Call) (handleState, bool) {
	bit := handleState(1) << uint(c.Arg)
	switch c.Name {
	case "put":
		return s | bit, s&bit == 0
	case "get":
		return s, c.OK == (s&bit != 0)
	case "remove":
		return s &^ bit, c.OK == (s&bit != 0)
	}
	panic(c.Name)
}

func handles() {
	t := invoke.NewLiveInstances[*instance]()
	var h history
	issued := map[uint64]int{} // handle -> instance
	var known []uint64
	n := 0
	gone := map[uint64]bool{}
	type guess struct {
		c *hlib.Call
		h uint64
	}
	var guesses []guess
	gs := 1 + vsim.Choose(5, "goroutines")
	for g := 0; g < gs; g++ {
		k := 1 + vsim.Choose(min(40/gs, 10), "ops")
		vsim.GoHarness(func() {
			for ; k > 0; k-- {
				nap(0.1)
				op := vsim.Choose(8, "op")
				if len(known) == 0 && op > 2 && op < 7 {
					op = 0
				}
				switch op {
				case 0, 1, 2:
					n++
					x := &instance{n}
					h.do(g, "put", x.n, func(c *hlib.Call) {
						id := t.Put(x)
						if o, ok := issued[id]; ok {
							fail("handle-reused", "handle %d was issued for instance %d and now for instance %d", id, o, x.n)
						}
						issued[id] = x.n
						known = append(known, id)
					})
				case 3, 4:
					id := known[vsim.Choose(len(known), "handle")]
					h.do(g, "get", issued[id], func(c *hlib.Call) {
						x, ok := t.Get(id)
						c.OK = ok
						if ok && x.n != issued[id] {
							fail("wrong-instance", "the handle of instance %d resolves to instance %d", issued[id], x.n)
						}
					})
				case 5, 6:
					id := known[vsim.Choose(len(known), "handle")]
					h.do(g, "remove", issued[id], func(c *hlib.Call) {
						x, ok := t.Remove(id)
						c.OK = ok
						if ok && x.n != issued[id] {
							fail("wrong-instance", "removing the handle of instance %d removed instance %d", issued[id], x.n)
						}
						if ok {
							gone[id] = true
						}
					})
					if vsim.Flip(0.01, "gc") {
						vsim.GC()
					}
				case 7:
					// a handle that has not been issued (yet)
					id := uint64(vsim.Choose(6, "guess"))
					if vsim.Flip(0.3, "guess.large") {
						id = vsim.Rand64()
					}
					if _, ok := issued[id]; ok {
						continue
					}
					c := h.do(g, "get", 0, func(c *hlib.Call) {
						_, c.OK = t.Get(id)
					})
					guesses = append(guesses, guess{c, id})
				}
			}
		})
	}
	idle()
	for _, q := range guesses {
		i, ok := issued[q.h]
		if !ok && q.c.OK {
			fail("unknown-resolves", "handle %d was never issued but resolves", q.h)
		}
		if !ok {
			i = 60 // no instance
		}
		q.c.Arg = i
	}
	if ok, decided := hlib.Linearizable(h.h, handleState(0), applyHandles, 200000); !ok {
		fail("not-atomic", "no order of the operations explains their results: %v", h.h)
	} else if !decided {
		vsim.Count("undecided")
	}
	_ = fmt.Sprint
}

// churn registers and removes many instances while memory is reclaimed.
func churn() {
	t := invoke.NewLiveInstances[*instance]()
	issued := map[uint64]int{}
	var removed []uint64
	live := map[uint64]*instance{}
	var order []uint64
	n := 0
	most := 40
	if vsim.Flip(0.01, "many") {
		most = []int{300, 1500, 6000}[vsim.Choose(3, "many.most")]
	}
	remove := []float64{0.7, 0.3, 0}[vsim.Choose(3, "remove.share")]
	for r := 2 + vsim.Choose(4, "rounds"); r > 0; r-- {
		var ids []uint64
		for k := 1 + vsim.Choose(most, "instances"); k > 0; k-- {
			n++
			x := &instance{n}
			id := t.Put(x)
			if o, ok := issued[id]; ok {
				fail("handle-reused", "handle %d was issued for instance %d and now for instance %d", id, o, n)
			}
			issued[id] = n
			live[id] = x
			ids = append(ids, id)
			order = append(order, id)
		}
		for _, id := range ids {
			if vsim.Flip(remove, "remove") {
				if x, ok := t.Remove(id); !ok || x.n != issued[id] {
					fail("wrong-instance", "the handle of instance %d can not be removed", issued[id])
				}
				delete(live, id)
				removed = append(removed, id)
			}
		}
		vsim.GC()
		for _, id := range removed {
			if x, ok := t.Get(id); ok {
				fail("removed-resolves", "the removed handle of instance %d resolves to instance %d", issued[id], x.n)
			}
		}
		for _, id := range order {
			x := live[id]
			if x == nil {
				continue
			}
			if y, ok := t.Get(id); !ok || y != x {
				fail("wrong-instance", "the handle of instance %d resolves to %v", x.n, y)
			}
		}
	}
}

func init() {
	hlib.Register("C11", "registry", 199, registry)
	hlib.Register("C11", "crowd", 1, crowd)
	hlib.Register("C12", "identifiers", 1, identifiers)
	hlib.Register("C16", "buffer", 1, unbounded)
	hlib.Register("C17", "handles", 9, handles)
	hlib.Register("C17", "churn", 1, churn)
}

func main() { hlib.Main("comp") }
