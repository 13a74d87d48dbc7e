// Package evil makes the bytes of peers that break the protocol.
package evil

import (
	"encoding/binary"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
)

// Peer makes the bytes of a peer that does not follow the protocol.
type Peer struct {
	Ops func(kind int) []uint32 // known operations
	Max int                     // largest outer length
	n   uint64
	ids []uint32
}

// Heard tells of a stream identifier that is in use.
func (h *Peer) Heard(id uint32) { h.ids = append(h.ids, id) }

func (h *Peer) Raw(max int) []byte {
	h.n++
	return hlib.Fill(h.n, 'x', 0, vsim.Range(0, max, "evil.n"))
}

func Wrap(b []byte, length int) []byte {
	return append([]byte{byte(length >> 16), byte(length >> 8), byte(length)}, b...)
}

func Encode(f frames.Frame) []byte {
	b := make([]byte, f.Size())
	f.Encode(b)
	return b
}

func (h *Peer) id() uint32 {
	if len(h.ids) > 0 && vsim.Flip(0.6, "evil.reuse") {
		return h.ids[vsim.Choose(len(h.ids), "evil.id")]
	}
	id := uint32(vsim.Range(0, 12, "evil.lowid"))
	switch vsim.Choose(5, "evil.idkind") {
	case 3:
		id = 1<<31 - 1 - uint32(vsim.Choose(3, "evil.highid"))
	case 4:
		id = 1<<31 | id
	}
	h.ids = append(h.ids, id)
	return id
}

func (h *Peer) meta(kind int) []byte {
	if vsim.Flip(0.15, "evil.shortmeta") {
		return h.Raw(7)
	}
	var b [8]byte
	idx := uint32(0)
	if l := h.Ops(kind); len(l) > 0 {
		idx = l[vsim.Choose(len(l), "evil.op")]
	}
	if vsim.Flip(0.15, "evil.badop") {
		idx = []uint32{99, 1 << 31, 1<<32 - 1}[vsim.Choose(3, "evil.badop")]
	}
	binary.BigEndian.PutUint32(b[:], idx)
	return append(b[:], h.Raw(10)...)
}

func (h *Peer) demand() uint32 {
	return []uint32{0, 1, 2, 5, 100, 1<<31 - 1, 1 << 31, 1<<32 - 1}[vsim.Choose(8, "evil.demand")]
}

// Well is a well-formed frame, though not necessarily one that makes sense.
func (h *Peer) Well() []byte {
	switch vsim.Choose(9, "evil.type") {
	case 0, 1, 2:
		kind := 1 + vsim.Choose(4, "evil.kind")
		t := frames.FrameTypeRequestResponse + frames.FrameType(kind-1)
		return Encode(&frames.RequestPayload{FrameType: t, StreamID: h.id(), Metadata: h.meta(kind), Data: h.Raw(40), InitialN: h.demand(), Complete: vsim.Flip(0.3, "evil.complete"), Follows: vsim.Flip(0.1, "evil.follows")})
	case 3:
		return Encode(&frames.RequestN{StreamID: h.id(), N: h.demand()})
	case 4:
		return Encode(&frames.Cancel{StreamID: h.id()})
	case 5, 6:
		return Encode(&frames.Payload{StreamID: h.id(), Metadata: h.Raw(12), Data: h.Raw(40), Follows: vsim.Flip(0.1, "evil.follows"), Complete: vsim.Flip(0.4, "evil.complete"), Next: vsim.Flip(0.7, "evil.next")})
	case 7:
		return Encode(&frames.Error{StreamID: h.id(), Code: frames.ErrCode(vsim.Choose(2000, "evil.code")), Data: string(h.Raw(30))})
	default:
		return h.Setup()
	}
}

func (h *Peer) Setup() []byte {
	s := &frames.Setup{MajorVersion: 0, MinorVersion: 2}
	switch vsim.Choose(5, "evil.table") {
	case 0, 1:
		s.Data = invoke.GetOperationsTable().ToBytes()
	case 2:
		s.Data = operations.Table{}.ToBytes()
	case 3:
		s.Data = h.Mutate(invoke.GetOperationsTable().ToBytes())
	default:
		s.Data = h.Raw(60)
	}
	if vsim.Flip(0.2, "evil.setupmeta") {
		s.Metadata = h.Raw(20)
		s.Token = h.Raw(20)
	}
	return Encode(s)
}

func (h *Peer) Mutate(b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + vsim.Choose(3, "evil.mutations"); k > 0 && len(b) > 0; k-- {
		i := vsim.Choose(len(b), "evil.at")
		if vsim.Flip(0.5, "evil.front") {
			i = vsim.Choose(min(len(b), 24), "evil.atfront")
		}
		switch vsim.Choose(6, "evil.mutation") {
		case 0:
			b[i] ^= 1 << vsim.Choose(8, "evil.bit")
		case 1:
			b[i] = []byte{0, 0xff, 0x7f, 0x80}[vsim.Choose(4, "evil.byte")]
		case 2:
			b = b[:i]
		case 3:
			b = append(b, h.Raw(9)...)
		case 4:
			b = append(b[:i], b[min(len(b), i+1+vsim.Choose(4, "evil.cut")):]...)
		case 5:
			b = append(b[:i:i], append(h.Raw(5), b[i:]...)...)
		}
	}
	vsim.Count("hostile-mutated-frame")
	return b
}

// Chunk is the next bytes of the hostile peer.
func (h *Peer) Chunk() []byte {
	switch vsim.Choose(12, "evil.chunk") {
	case 0, 1, 2, 3, 4:
		b := h.Well()
		return Wrap(b, len(b))
	case 5, 6, 7:
		b := h.Mutate(h.Well())
		return Wrap(b, len(b))
	case 8: // header only, all types and flags
		var b [6]byte
		binary.BigEndian.PutUint32(b[:], h.id())
		binary.BigEndian.PutUint16(b[4:], uint16(vsim.Choose(65536, "evil.header")))
		x := append(b[:], h.Raw(20)...)
		vsim.Count("hostile-random-header")
		return Wrap(x, len(x))
	case 9: // wrong outer length
		b := h.Well()
		vsim.Count("hostile-wrong-length")
		return Wrap(b, []int{0, 1, 5, 6, len(b) - 1, len(b) + 1, len(b) + 300, h.Max}[vsim.Choose(8, "evil.length")])
	case 10:
		vsim.Count("hostile-garbage")
		return h.Raw(50)
	default:
		b := h.Well()
		vsim.Count("hostile-truncated-frame")
		return Wrap(b, len(b))[:vsim.Choose(len(b)+3, "evil.trunc")]
	}
}
