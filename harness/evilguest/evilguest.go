// Package evilguest is a guest that does not follow the protocol.
package evilguest

import (
	"encoding/binary"

	"github.com/nanobus/iota/go/zverif/evil"
	"github.com/tetratelabs/wazero"
	"vsim"
)

const ms = int64(1000000)

// Guest is a guest that does not follow the protocol.
type Guest struct {
	*evil.Peer
	Prog    string
	M       *wazero.Module
	Table   func() []byte // the operation table
	Faulty  float64       // how often it breaks what the host starts with
	in, out []byte        // what the host, or this guest, writes
	inA     uint32
	outA    uint32
	budget  int // frames left
}

// New makes a guest that modules with its program are made of.
func New(prog string, ops func(int) []uint32) *Guest {
	h := &Guest{Prog: prog, budget: vsim.Choose(60, "evil.budget")}
	h.Peer = &evil.Peer{Max: 1 << 24, Ops: ops}
	wazero.Raw[prog] = h.exports
	return h
}

// exports is the program: what the guest exports.
func (h *Guest) exports(m *wazero.Module) map[string]any {
	h.M = m
	x := map[string]any{
		"__wasmrs_init":            h.init,
		"__wasmrs_op_list_request": h.list,
		"__wasmrs_send":            h.entered,
	}
	if vsim.Flip(0.3, "evil.start") {
		x["_start"] = func() {
			if vsim.Flip(h.Faulty, "evil.early") {
				h.early()
			}
		}
	}
	if vsim.Flip(h.Faulty/2, "evil.missing") {
		vsim.Count("hostile-missing-export")
		l := []string{"__wasmrs_init", "__wasmrs_op_list_request", "__wasmrs_send"}
		delete(x, l[vsim.Choose(len(l), "evil.export")])
	}
	return x
}

// early does what is allowed only later.
func (h *Guest) early() {
	vsim.Count("hostile-early-call")
	switch vsim.Choose(5, "evil.early") {
	case 0:
		panic("unreachable")
	case 1:
		h.M.Import("__send", uint32(vsim.Choose(20, "evil.pos")))
	case 2:
		h.M.Import("__op_list", h.pointer(1<<16), uint32(vsim.Choose(100, "evil.size")))
	case 3:
		h.M.Import("__init_buffers", h.pointer(1<<16), h.pointer(1<<16))
	case 4:
		vsim.SleepNs(int64(vsim.Range(1, 500, "evil.ms")) * ms)
	}
}

// pointer is an address that may be wrong.
func (h *Guest) pointer(good uint32) uint32 {
	if !vsim.Flip(0.5, "evil.pointer") {
		return good
	}
	vsim.Count("hostile-wrong-pointer")
	return []uint32{0, 1, good - 1, good + 1, good + 8000, good + 17000, 1 << 31, 1<<32 - 1, 1<<32 - 16384}[vsim.Choose(9, "evil.pointer")]
}

func (h *Guest) init(a, b, c uint32) bool {
	h.inA, h.in = h.M.Alloc(int(a))
	h.outA, h.out = h.M.Alloc(int(b))
	if vsim.Flip(h.Faulty, "evil.init") {
		switch vsim.Choose(4, "evil.init") {
		case 0:
			vsim.Count("hostile-no-buffers")
			return false
		case 1:
			h.M.Import("__init_buffers", h.pointer(h.inA), h.pointer(h.outA))
			return true
		default:
			h.early()
		}
	}
	h.M.Import("__init_buffers", h.inA, h.outA)
	return true
}

func (h *Guest) list() {
	if vsim.Flip(h.Faulty, "evil.list") {
		h.early()
	}
	b := h.Table()
	a, mem := h.M.Alloc(len(b) + 1)
	copy(mem, b)
	n := uint32(len(b))
	if vsim.Flip(h.Faulty, "evil.tablesize") {
		vsim.Count("hostile-wrong-length")
		n = []uint32{0, 1, n - 1, n + 1, n + 500, 1 << 31, 1<<32 - 1}[vsim.Choose(7, "evil.tablesize")]
	}
	h.M.Import("__op_list", a, n)
}

// entered is called when the host has something for the guest.
func (h *Guest) entered(end uint32) {
	for b := h.in[:min(int(end), len(h.in))]; len(b) >= 9; {
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		h.Heard(binary.BigEndian.Uint32(b[3:]))
		b = b[min(len(b), 3+n):]
	}
	h.act()
}

// act does something inside the guest.
func (h *Guest) act() {
	for k := vsim.Choose(5, "evil.acts"); k > 0; k-- {
		if vsim.Flip(h.Faulty, "evil.trap") {
			vsim.Count("hostile-trap")
			panic("unreachable")
		}
		if vsim.Flip(h.Faulty, "evil.again") {
			h.early()
		}
		h.emit()
	}
}

// emit sends bytes to the host.
func (h *Guest) emit() {
	var b []byte
	for k := vsim.Choose(4, "evil.chunks"); k >= 0 && h.budget > 0; k-- {
		h.budget--
		b = append(b, h.Chunk()...)
	}
	if len(b) == 0 {
		return
	}
	n := uint32(copy(h.out, b))
	vsim.Event("hostile %x", b[:min(len(b), 40)])
	if vsim.Flip(0.1, "evil.sendpos") {
		vsim.Count("hostile-wrong-length")
		n = []uint32{0, 1, n - 1, n + 1, n + 9, 20000, 1 << 31, 1<<32 - 1}[vsim.Choose(8, "evil.sendpos")]
	}
	h.M.Import("__send", n)
}
