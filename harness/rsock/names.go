package main

import (
	gocontext "context"
	"fmt"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/zverif/adapt"
	"github.com/nanobus/iota/go/zverif/evil"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
	"vsim/nx"
)

var (
	nsPool = []string{"", "a", "a.b", "greeting.v1"}
	opPool = []string{"op0", "op1", "op2", "op3", "op4", "a", ""}
	// names that are easily taken for each other
	nsLike = []string{"", "a", "a.b", "a/b", "A", "a:", "op0"}
	opLike = []string{"op0", "b.op0", "b/op0", "a.b.op0", "Op0", "op", "0", ":op0", "öp0", "op0 ", "a", ""}
)

// longPool has more names than there are numbers in a byte.
var longPool = func() []string {
	l := append([]string(nil), opPool...)
	for k := 0; k < 400; k++ {
		l = append(l, fmt.Sprintf("operation %d", k))
	}
	return l
}()

// manyOps exports a random set of operations: the same names recur with other
// kinds and namespaces, and imports of the process are listed between them.
func (e *env) manyOps() (nsPool, names []string) {
	x := adapt.Exports()
	e.ops = map[int][]*hlib.Op{}
	next := map[int]uint32{}
	used := map[string]bool{}
	imports := vsim.Flip(0.6, "imports")
	nsPool, names = pools()
	n, only := 4+vsim.Choose(30, "ops"), 0
	if vsim.Flip(0.05, "ops.many") { // more than there are numbers in a byte
		n, names = 60+vsim.Choose(700, "ops.number"), longPool
		if vsim.Flip(0.5, "ops.onekind") {
			only = 1 + vsim.Choose(4, "ops.kind")
		}
	}
	for k := n; k > 0; k-- {
		kind := 1 + vsim.Choose(4, "op.kind")
		if only > 0 {
			kind = only
		}
		if k <= 4 && e.ops[k] == nil {
			kind = k
		}
		if imports && vsim.Flip(0.4, "op.import") {
			x.Import(1+vsim.Choose(4, "imp.kind"), nsPool[vsim.Choose(len(nsPool), "imp.ns")], names[vsim.Choose(len(names), "imp.name")])
		}
		op := &hlib.Op{Kind: kind, NS: nsPool[vsim.Choose(len(nsPool), "op.ns")], Name: names[vsim.Choose(len(names), "op.name")]}
		key := fmt.Sprintf("%d %q %q", kind, op.NS, op.Name)
		if used[key] {
			if e.ops[kind] != nil {
				continue
			}
			op.Name = fmt.Sprintf("only%d", kind)
		}
		used[key] = true
		op.Index = next[kind]
		next[kind]++
		switch kind {
		case nx.RR:
			x.RR(op.NS, op.Name, e.w.HRR(op))
		case nx.FNF:
			x.FNF(op.NS, op.Name, e.w.HFNF(op))
		case nx.RS:
			x.RS(op.NS, op.Name, e.w.HRS(op))
		case nx.RC:
			x.RC(op.NS, op.Name, e.w.HRC(op))
		}
		e.ops[kind] = append(e.ops[kind], op)
	}
	return nsPool, names[:min(len(names), len(opLike))]
}

// pools draws the names of a run.
func pools() ([]string, []string) {
	if vsim.Flip(0.2, "names.alike") {
		return nsLike, opLike
	}
	return nsPool, opPool
}

func (e *env) find(kind int, ns, name string) *hlib.Op {
	for _, op := range e.ops[kind] {
		if op.NS == ns && op.Name == name {
			return op
		}
	}
	return nil
}

// names: callers on the server name what they call.
func names() {
	e := newEnv()
	e.w.Wide = "C24"
	nsPool, opPool := e.manyOps()
	healthyNet()
	e.serve()
	e.connectAll(3)
	p := swarm(hlib.DefaultProfile())
	p.Nested = 0
	p.Kinds = []int{nx.RR, nx.RR, nx.FNF, nx.RS, nx.RC}
	p.Bad = []float64{0, 0.2}[vsim.Choose(2, "bad")]
	for n := 1 + vsim.Choose(14, "calls"); n > 0; n-- {
		q := e.peers[vsim.Choose(len(e.peers), "driver.peer")]
		if vsim.Flip(0.25, "fromclient") {
			i := e.plan(e.w, &p, q, false)
			vsim.GoHarness(func() { e.w.Start(i) })
			continue
		}
		kind := p.Kinds[vsim.Choose(len(p.Kinds), "kind")]
		ns, name := nsPool[vsim.Choose(len(nsPool), "call.ns")], opPool[vsim.Choose(len(opPool), "call.name")]
		if vsim.Flip(0.5, "call.existing") {
			op := e.op(kind)
			ns, name = op.NS, op.Name
		}
		op := e.find(kind, ns, name)
		bad := 0
		if op == nil {
			op, bad = e.op(kind), 3
		}
		i := e.w.New(&p, kind, q.ss, q.cs, op)
		i.Bad = bad
		if bad == 0 && vsim.Flip(p.Bad, "bad") {
			i.Spoil()
		}
		pause := int64(vsim.Range(0, 300, "driver.sleep")) * ms
		vsim.GoHarness(func() {
			vsim.SleepNs(pause)
			idx := q.sc.Import(kind, ns, name)
			vsim.Event("resolved %d %s/%s to %d", kind, ns, name, idx)
			i.Named = &idx
			e.w.Start(i)
		})
	}
	e.finish(e.w)
}

// refused: calls that name nothing fail alone.
func refused(kinds ...int) func() {
	return mix(func(p *hlib.Profile) {
		p.Kinds = kinds
		p.Bad = 0.4
		p.Wide = "C24"
	})
}

// tables: every peer announces operations of its own, numbered as it likes.
func tables() {
	e := newEnv()
	e.export(1)
	healthyNet()
	e.serve()
	type peerTable struct {
		t     operations.Table
		ns    []string
		names []string
		c     invoke.Caller
	}
	var all []*peerTable
	for n := 1 + vsim.Choose(3, "peers"); n > 0; n-- {
		p := &peerTable{}
		all = append(all, p)
		used := map[string]bool{}
		n, top := vsim.Choose(14, "table.len"), 20
		nsPool, names := pools()
		if vsim.Flip(0.1, "table.many") {
			n, names = 14+vsim.Choose(700, "table.number"), longPool
		}
		p.ns, p.names = nsPool, names
		if vsim.Flip(0.2, "table.wide") {
			top = []int{300, 70000, 1 << 24, 1<<32 - 2}[vsim.Choose(4, "table.top")]
		}
		for k := n; k > 0; k-- {
			o := operations.Operation{
				Index:     uint32(vsim.Choose(top, "table.index")),
				Type:      operations.RequestType(1 + vsim.Choose(4, "table.type")),
				Direction: operations.Export,
				Namespace: nsPool[vsim.Choose(len(nsPool), "table.ns")],
				Operation: names[vsim.Choose(len(names), "table.op")],
			}
			if vsim.Flip(0.05, "table.long") {
				o.Namespace = string(hlib.Fill(uint64(k), 'n', 0, 300))
			}
			if vsim.Flip(0.3, "table.import") {
				o.Direction = operations.Import
			}
			key := fmt.Sprintf("%d %d %q %q", o.Type, o.Direction, o.Namespace, o.Operation)
			if used[key] {
				continue
			}
			used[key] = true
			p.t = append(p.t, o)
		}
		before := len(e.accepted)
		x, err := vsim.DialTCP(gocontext.Background(), address)
		if err != nil {
			hlib.Fail("C24", "setup-failed", "can not connect: %v", err)
		}
		c := x.(*vsim.SimConn)
		b := evil.Encode(&frames.Setup{MinorVersion: 2, Data: p.t.ToBytes()})
		if _, err := c.Write(evil.Wrap(b, len(b))); err != nil {
			hlib.Bad("write: %v", err)
		}
		if vsim.Flip(0.5, "setup.idle") {
			e.idle()
		}
		if !e.await(before) {
			hlib.Fail("C24", "setup-failed", "a client with %d operations was never accepted", len(p.t))
		}
		p.c = e.accepted[before]
	}
	busy := 0
	for _, p := range all {
		p := p
		busy++
		vsim.GoHarness(func() {
			defer func() { busy-- }()
			c := adapt.Caller(e.ctx, p.c)
			for k := 1 + vsim.Choose(8, "lookups"); k > 0; k-- {
				kind := 1 + vsim.Choose(4, "lookup.kind")
				ns, name := p.ns[vsim.Choose(len(p.ns), "lookup.ns")], p.names[vsim.Choose(len(p.names), "lookup.op")]
				if len(p.t) > 0 && vsim.Flip(0.6, "lookup.known") {
					o := p.t[vsim.Choose(len(p.t), "lookup.which")]
					ns, name = o.Namespace, o.Operation
					if vsim.Flip(0.7, "lookup.itskind") {
						kind = int(o.Type)
					}
				}
				got := c.Import(kind, ns, name)
				vsim.Event("lookup %d %d", kind, got)
				want := uint32(1<<32 - 1)
				for _, o := range p.t {
					if o.Direction == operations.Export && int(o.Type) == kind && o.Namespace == ns && o.Operation == name {
						want = o.Index
					}
				}
				for _, o := range p.t { // unknown names must not resolve to any operation
					if want == 1<<32-1 && got == o.Index && o.Direction == operations.Export && int(o.Type) == kind {
						hlib.Fail("C24", "resolved-unknown", "%s/%s of kind %d is not exported but resolves to operation %d (%s/%s)", ns, name, kind, got, o.Namespace, o.Operation)
					}
				}
				if want != 1<<32-1 && got != want {
					hlib.Fail("C24", "resolved-wrong", "%s/%s of kind %d resolves to operation %d instead of %d", ns, name, kind, got, want)
				}
			}
		})
	}
	e.idle()
	if busy > 0 {
		hlib.Fail("C24", "lookup-hangs", "a lookup does not return")
	}
}

func init() {
	hlib.Register("C24", "names", 5, names)
	hlib.Register("C24", "tables", 2, tables)
	hlib.Register("C24", "refused", 3, refused(nx.RR, nx.FNF, nx.RS, nx.RC))
	hlib.Register("C24", "refused-channels", 1, refused(nx.RC, nx.RR))
}
