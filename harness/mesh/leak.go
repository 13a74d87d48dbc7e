package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"weak"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/zverif/evil"
	"github.com/nanobus/iota/go/zverif/hlib"
	"github.com/tetratelabs/wazero"
	"vsim"
	context "vsim/scontext"
)

// tame is a module that answers everything at once. It is not one of the
// repository's guests, so that a run can load any number of them.
type tame struct {
	f       *tameFile
	m       *wazero.Module
	in, out []byte
	id      uint32 // last stream it opened
	slow    bool
	crash   int // where it crashes at its start
}

// tameFile is a file with the modules that were loaded from it.
type tameFile struct {
	k     *reloads
	name  string
	table operations.Table
	mods  []*tame
}

// reloads is a mesh whose modules are loaded again and again.
type reloads struct {
	*env
	files []*tameFile
	names []operations.Operation // what is exported somewhere
	n     int
	// calls that modules may still make in this round
	budget int
	old    []weak.Pointer[host.Instance]
}

func (t *tame) exports(m *wazero.Module) map[string]any {
	t.m = m
	x := map[string]any{
		"__wasmrs_init": func(a, b, c uint32) bool {
			t.start(0)
			var in, out uint32
			in, t.in = m.Alloc(int(a))
			out, t.out = m.Alloc(int(b))
			m.Import("__init_buffers", in, out)
			t.start(1)
			return true
		},
		"__wasmrs_op_list_request": func() {
			b := t.f.table.ToBytes()
			a, mem := m.Alloc(len(b) + 1)
			copy(mem, b)
			m.Import("__op_list", a, uint32(len(b)))
			t.start(2)
		},
		"__wasmrs_send": t.entered,
		"_start":        func() { t.start(3) },
	}
	if t.crash == 4 {
		delete(x, "__wasmrs_send")
	}
	return x
}

func (t *tame) start(at int) {
	if t.crash == at {
		panic("unreachable")
	}
}

// entered answers what the host asks for, and makes calls of its own.
func (t *tame) entered(end uint32) {
	for b := t.in[:min(int(end), len(t.in))]; len(b) >= 9; {
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		f := b[3:min(len(b), 3+n)]
		b = b[min(len(b), 3+n):]
		id := binary.BigEndian.Uint32(f)
		if t.slow && vsim.Flip(0.3, "tame.stall") {
			vsim.Count("fault:guest-stall")
			vsim.SleepNs(int64(vsim.Range(1, 9000, "tame.ms")) * ms)
		}
		h := frames.ParseFrameHeader(f)
		switch h.Type() {
		case frames.FrameTypeRequestResponse, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel:
			if h.Type() == frames.FrameTypeRequestChannel {
				t.emit(&frames.RequestN{StreamID: id, N: 1000})
			}
			if vsim.Flip(0.2, "tame.error") {
				t.emit(&frames.Error{StreamID: id, Code: frames.ErrCodeApplicationError, Data: "no"})
				break
			}
			t.emit(&frames.Payload{StreamID: id, Data: []byte("answer"), Next: true, Complete: true})
		}
		if t.f.k.budget > 0 && vsim.Flip(0.3, "tame.call") {
			t.f.k.budget--
			t.call()
		}
	}
}

// call calls something that the module imports.
func (t *tame) call() {
	var l []operations.Operation
	for _, o := range t.f.table {
		if o.Direction == operations.Import {
			l = append(l, o)
		}
	}
	if len(l) == 0 {
		return
	}
	o := l[vsim.Choose(len(l), "tame.op")]
	md := make([]byte, 8)
	binary.BigEndian.PutUint32(md, o.Index)
	if t.id == 0 {
		t.id = 1
	} else {
		t.id += 2
	}
	t.emit(&frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse + frames.FrameType(o.Type-1), StreamID: t.id, Metadata: md, Data: []byte("call"), InitialN: 1000, Complete: true})
}

func (t *tame) emit(f frames.Frame) {
	b := evil.Encode(f)
	t.m.Import("__send", uint32(copy(t.out, evil.Wrap(b, len(b)))))
}

// load loads a file, again or for the first time.
func (f *tameFile) load() {
	k := f.k
	t := &tame{f: f, crash: -1, slow: vsim.Flip(0.2, "tame.slow")}
	prog := fmt.Sprintf("%s #%d", f.name[9:], k.n)
	k.n++
	source := []byte("\x00asm:" + prog)
	var unreadable error
	broken := true
	switch vsim.Choose(24, "load.broken") {
	case 0:
		source = source[:4]
	case 1:
		unreadable = errors.New("input/output error")
		vsim.Count("fault:unreadable-file")
	case 2, 3:
		t.crash = vsim.Choose(5, "load.crash")
	default:
		broken = false
	}
	if broken {
		vsim.Count("fault:broken-module")
	}
	wazero.Raw[prog] = t.exports
	f.mods = append(f.mods, t)
	k.reading[vsim.Self()] = func(string) error {
		vsim.SetFile(f.name, source)
		return unreadable
	}
	inst, err := k.m.LoadModule(context.Background(), f.name)
	vsim.Event("loaded %s failed=%v", prog, err != nil)
	delete(k.reading, vsim.Self())
	if (err != nil) != broken {
		fail("load", "loading %s, broken=%v, ended with: %v", prog, broken, err)
	}
	if err == nil {
		k.old = append(k.old, weak.Make(inst))
	}
}

// call calls something from outside.
func (k *reloads) call() {
	o := k.names[vsim.Choose(len(k.names), "op")]
	ctx := context.Background()
	p := payload.New([]byte("call"), make([]byte, 8))
	switch o.Type {
	case operations.RequestResponse:
		if x := k.m.RequestResponse(ctx, o.Namespace, o.Operation, p); x != nil {
			x.Async()
		}
	case operations.FireAndForget:
		k.m.FireAndForget(ctx, o.Namespace, o.Operation, p)
	case operations.RequestStream:
		if x := k.m.RequestStream(ctx, o.Namespace, o.Operation, p); x != nil {
			x.Async()
		}
	case operations.RequestChannel:
		in := flux.FromSlice([]payload.Payload{p, p, p}[:vsim.Choose(4, "items")])
		if x := k.m.RequestChannel(ctx, o.Namespace, o.Operation, p, in); x != nil {
			x.Async()
		}
	}
}

// plan draws what the files export and import, once and for all.
func (k *reloads) plan(n int) {
	var own [][]operations.Operation
	for j := 0; j < n; j++ {
		var l []operations.Operation
		for c := 1 + vsim.Choose(5, "exports"); c > 0; c-- {
			o := operations.Operation{Type: operations.RequestType(1 + vsim.Choose(4, "op.kind")), Direction: operations.Export, Namespace: "a", Operation: fmt.Sprintf("op%d.%d", j, c)}
			if len(k.names) > 0 && vsim.Flip(0.15, "op.rival") {
				o = k.names[vsim.Choose(len(k.names), "op.of")]
			}
			l = append(l, o)
			k.names = append(k.names, o)
		}
		own = append(own, l)
	}
	for j := 0; j < n; j++ {
		f := &tameFile{k: k, name: fmt.Sprintf("/modules/m%d.wasm", j)}
		l := own[j]
		for _, o := range k.names {
			if vsim.Flip(0.4, "import") {
				o.Direction = operations.Import
				l = append(l, o)
			}
		}
		for vsim.Flip(0.6, "import.unknown") {
			l = append(l, operations.Operation{Type: operations.RequestType(1 + vsim.Choose(4, "op.kind")), Direction: operations.Import, Namespace: "no", Operation: fmt.Sprintf("such%d", len(l))})
		}
		for i := len(l) - 1; i > 0; i-- {
			j := vsim.Choose(i+1, "op.order")
			l[i], l[j] = l[j], l[i]
		}
		var count [3][5]uint32
		for i := range l {
			c := &count[l[i].Direction][l[i].Type]
			l[i].Index = *c
			*c++
		}
		f.table = l
		k.files = append(k.files, f)
	}
}

// wordSize is the least that something which is kept takes. Names and numbers
// in messages get longer too.
const wordSize = 8

// growing tells whether something has grown in every round, by at least step.
func growing(l []int, step int) bool {
	for i := 1; i < len(l); i++ {
		if l[i] < l[i-1]+step {
			return false
		}
	}
	return len(l) >= 5
}

// reloading: modules are loaded over and over.
func leaking() {
	k := &reloads{env: newEnv()}
	prop = "C28"
	k.plan(1 + vsim.Choose(3, "files"))
	atOnce := vsim.Flip(0.4, "load.atonce")
	busy := vsim.Choose(3, "busy")
	most := 1 + vsim.Choose(3, "load.most")
	traps := vsim.Flip(0.2, "traps")
	if traps {
		wazero.TrapAt = func(m *wazero.Module, fn string) bool {
			if fn != "__wasmrs_send" || !vsim.Flip(0.05, "guest.trap") {
				return false
			}
			vsim.Count("fault:guest-trap")
			return true
		}
	}
	var size, alive, gs []int
	grows := func() bool {
		// the first rounds may still load a file for the first time
		return growing(gs[1:], 1) || growing(alive[1:], 1) || growing(size[1:], wordSize)
	}
	// Leftovers have sizes of their own. Only a leak grows on and on.
	for r := 0; r < 7 || r < 16 && grows(); r++ {
		k.budget = 20
		for _, f := range k.files {
			loads := func() {
				for n := 1 + vsim.Choose(most, "load.times"); n > 0; n-- {
					f.load()
					if vsim.Flip(0.3, "load.pause") {
						vsim.SleepNs(int64(vsim.Range(1, 7000, "load.ms")) * ms)
					}
				}
			}
			for n := vsim.Choose(1+3*busy, "calls"); n > 0; n-- {
				at := int64(vsim.Choose(8000, "call.at")) * ms
				vsim.GoHarness(func() {
					vsim.SleepNs(at)
					k.call()
				})
			}
			if atOnce {
				vsim.GoHarness(loads)
			} else {
				loads()
			}
		}
		k.idle()
		for _, f := range k.files {
			open := 0
			l := f.mods[:0]
			for _, t := range f.mods {
				if t.m != nil && !t.m.Closed() {
					open++
					l = append(l, t)
				}
			}
			f.mods = l
			if open > 1 {
				fail("not-closed", "%d modules of %s are open although the last one was loaded long ago", open, f.name)
			}
		}
		vsim.GC()
		left := k.old[:0]
		for _, p := range k.old {
			if p.Value() != nil {
				left = append(left, p)
			}
		}
		k.old = left
		alive = append(alive, len(left))
		size = append(size, hlib.DeepSize(append([]any{k.m}, vsim.Globals...)...))
		gs = append(gs, len(vsim.Leaked()))
		vsim.Logf("round %d: %d instances, %d bytes, %d goroutines", r, alive[r], size[r], gs[r])
	}
	switch {
	case growing(gs[1:], 1):
		fail("goroutines-grow", "goroutines grow with every round of loading %d file(s) again: %v", len(k.files), gs)
	case growing(alive[1:], 1):
		fail("instances-kept", "replaced instances can still be reached, more with every round of loading %d file(s) again: %v", len(k.files), alive)
	case growing(size[1:], wordSize):
		fail("memory-grows", "what the mesh holds grows with every round of loading %d file(s) again: %v bytes", len(k.files), size)
	}
	k.closing = true
	closed := false
	vsim.GoHarness(func() {
		k.m.Close()
		closed = true
	})
	k.idle()
	if !closed {
		fail("close-hangs", "the mesh does not close although all calls have ended")
	}
	for _, m := range wazero.RawModules() {
		if !m.Closed() {
			fail("not-closed", "the mesh is closed but %s is not", m.Program)
		}
	}
	if n := vsim.NumG() - k.base; n > 0 {
		fail("goroutines-left", "%d goroutines are left after the mesh was closed: %v", n, vsim.Leaked())
	}
}

func init() { hlib.Register("C28", "reload-forever", 1, leaking) }
