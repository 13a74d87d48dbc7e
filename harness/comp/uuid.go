package main

import (
	"errors"
	"io"

	"github.com/nanobus/iota/go/types/uuid"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
)

// source is a random source whose bytes can be recognised: it is a sequence of
// 16-bit values, all different in their lower 12 bits.
type source struct {
	next    int    // pair that is issued next
	half    bool   // its first byte has been issued
	perm    uint16 // makes the values of a run its own
	short   float64
	fails   float64
	odd     bool
	stuck   bool // fails always
	reads   int
	errs    int
	healthy bool
	partial int
}

func (s *source) value(k int) uint16 {
	return uint16(k*0x5a3)&0xfff | uint16(k)<<12 ^ s.perm
}

func (s *source) byte() byte {
	v := s.value(s.next)
	if s.half {
		s.half = false
		s.next++
		return byte(v)
	}
	s.half = true
	return byte(v >> 8)
}

var errSource = errors.New("random source failed")

// align drops the rest of a pair after what was read has been given up.
func (s *source) align() {
	if s.half {
		s.half = false
		s.next++
	}
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	nap(0.05)
	vsim.Gosched()
	if s.stuck || vsim.Flip(s.fails, "source.fails") {
		vsim.Count("fault:rand-error")
		s.errs++
		n := 0
		if vsim.Flip(0.5, "source.some") && len(p) > 0 {
			n = vsim.Choose(len(p), "source.n")
			s.fill(p[:n])
		}
		s.align()
		vsim.Event("source fails after %d bytes", n)
		if vsim.Flip(0.2, "source.eof") {
			return n, io.EOF
		}
		return n, errSource
	}
	n := len(p)
	if vsim.Flip(s.short, "source.short") && n > 0 {
		vsim.Count("fault:rand-short")
		n = vsim.Choose(n+1, "source.n")
		if !s.odd {
			n &^= 1
		}
		if n == 0 && vsim.Flip(0.8, "source.nothing") {
			n = min(len(p), 2)
		}
	}
	s.fill(p[:n])
	if n == len(p) && vsim.Flip(0.1*s.fails, "source.full") {
		return n, errSource // everything and an error
	}
	return n, nil
}

func (s *source) fill(p []byte) {
	for i := range p {
		p[i] = s.byte()
	}
}

// pairs finds the pairs that a random UUID was built from.
func (s *source) pairs(u uuid.UUID) (l [8]int, ok bool) {
	find := func(v, mask uint16) int {
		for k := 0; k < s.next; k++ {
			if s.value(k)&mask == v&mask {
				return k
			}
		}
		return -1
	}
	for i := range l {
		mask := uint16(0xffff)
		switch i {
		case 3:
			mask = 0x0fff
		case 4:
			mask = 0x3fff
		}
		l[i] = find(uint16(u[2*i])<<8|uint16(u[2*i+1]), mask)
		if l[i] < 0 {
			return l, false
		}
	}
	return l, true
}

func randoms() {
	s := &source{next: 1, perm: uint16(vsim.Choose(1<<12, "perm"))}
	faulty := vsim.Flip(0.8, "faulty")
	if faulty {
		s.short = []float64{0, 0.3, 0.8}[vsim.Choose(3, "short")]
		s.fails = []float64{0, 0.1, 0.3, 0.6}[vsim.Choose(4, "fails")]
	}
	gs := 1 + vsim.Choose(4, "goroutines")
	uuid.SetRand(s)
	used := map[int]string{}
	made := 0
	take := func(u uuid.UUID, how string) {
		made++
		vsim.Event("uuid %x", u[:])
		if u[6]>>4 != 4 || u[8]>>6 != 2 {
			fail("bits", "random UUID %x has the wrong version or variant", u[:])
		}
		l, ok := s.pairs(u)
		if !ok {
			fail("not-random", "UUID %x (%s) has bytes that are not from the random source (pairs %v)", u[:], how, l)
			return
		}
		for _, k := range l {
			if o, ok := used[k]; ok {
				fail("reused", "UUID %x (%s) is built from random bytes of UUID %s", u[:], how, o)
				return
			}
		}
		for _, k := range l {
			used[k] = u.String()
		}
		if u.Version() != 4 || u.Variant() != uuid.RFC4122 {
			fail("bits", "random UUID %x has version %v and variant %v", u[:], u.Version(), u.Variant())
		}
	}
	try := func(how int) (ok bool) {
		errs := s.errs
		var u uuid.UUID
		var err error
		switch how {
		case 0, 1, 2:
			u, err = uuid.NewRandom()
		case 3:
			u, err = uuid.NewRandomFromReader(s)
		case 4:
			func() {
				defer func() {
					if r := recover(); r != nil {
						if vsim.Killing() {
							panic(r)
						}
						err = errors.New("panicked")
					}
				}()
				u = uuid.New()
			}()
		case 5:
			func() {
				defer func() {
					if r := recover(); r != nil {
						if vsim.Killing() {
							panic(r)
						}
						err = errors.New("panicked")
					}
				}()
				u = uuid.MustParse(uuid.NewString())
			}()
		}
		if err != nil {
			vsim.Event("failed: %v", err)
			if s.errs == errs && gs == 1 {
				fail("failed", "generating a UUID failed with %v although the source did not", err)
			}
			return false
		}
		take(u, []string{"NewRandom", "NewRandom", "NewRandom", "NewRandomFromReader", "New", "NewString"}[how])
		return true
	}
	for phase := 1 + vsim.Choose(4, "phases"); phase > 0; phase-- {
		switch vsim.Choose(3, "pool") {
		case 0:
			uuid.EnableRandPool()
		case 1:
			uuid.DisableRandPool()
		}
		gs = 1 + vsim.Choose(4, "goroutines")
		s.odd = gs == 1 && vsim.Flip(0.5, "odd")
		max := 24
		for g := gs; g > 0; g-- {
			n := 1 + vsim.Choose(max/gs, "uuids")
			vsim.GoHarness(func() {
				for ; n > 0 && s.next < 3600; n-- {
					nap(0.1)
					try(vsim.Choose(6, "how"))
				}
			})
		}
		idle()
		if vsim.Flip(0.2, "outage") {
			s.stuck = true
			gs = 1
			for n := 1 + vsim.Choose(20, "outage.n"); n > 0; n-- {
				try(vsim.Choose(6, "how"))
			}
			s.stuck = false
		}
		if vsim.Flip(0.1, "default.rand") {
			uuid.SetRand(nil)
			if u, err := uuid.NewRandom(); err != nil || u.Version() != 4 {
				fail("failed", "the default source: %v, %v", u, err)
			}
			uuid.SetRand(s)
			// what the pool holds now is from the default source
			uuid.DisableRandPool()
		}
	}
	// the source recovers
	s.short, s.fails, gs, s.odd = 0, 0, 1, false
	for n := 1 + vsim.Choose(20, "recovered"); n > 0 && s.next < 3800; n-- {
		if !try(vsim.Choose(6, "how")) {
			fail("no-recovery", "the source works again but generating a UUID fails")
		}
	}
}

// counter is a random source that never fails: a sequence of blocks of the
// size of a UUID, all different.
type counter struct{ next int }

func (s *counter) Read(p []byte) (int, error) {
	vsim.Gosched()
	for i := range p {
		k := s.next / 16
		switch j := s.next % 16; j {
		case 0, 9:
			p[i] = byte(k >> 24)
		case 1, 10:
			p[i] = byte(k >> 16)
		case 2, 11:
			p[i] = byte(k >> 8)
		case 3, 12:
			p[i] = byte(k)
		default:
			p[i] = byte(k*j) ^ byte(k>>8)
		}
		s.next++
	}
	return len(p), nil
}

// bulk makes many UUIDs.
func bulk() {
	s := &counter{}
	uuid.SetRand(s)
	used := map[uuid.UUID]bool{}
	total := 500 + vsim.Choose([]int{1000, 5000, 12000}[vsim.Choose(3, "scale")], "uuids")
	for phase := 1 + vsim.Choose(3, "phases"); phase > 0; phase-- {
		switch vsim.Choose(4, "pool") {
		case 0, 1:
			uuid.EnableRandPool()
		case 2:
			uuid.DisableRandPool()
		}
		gs := 1 + vsim.Choose(3, "goroutines")
		for g := gs; g > 0; g-- {
			vsim.GoHarness(func() {
				for n := total / gs; n > 0; n-- {
					u, err := uuid.NewRandom()
					if err != nil {
						fail("failed", "generating a UUID failed with %v although the source did not", err)
						return
					}
					k := int(u[0])<<24 | int(u[1])<<16 | int(u[2])<<8 | int(u[3])
					b := (&counter{next: 16 * k}).block()
					b[6], b[8] = b[6]&0x0f|0x40, b[8]&0x3f|0x80
					switch {
					case u[6]>>4 != 4 || u[8]>>6 != 2:
						fail("bits", "random UUID %x has the wrong version or variant", u[:])
					case u != b || 16*k >= s.next:
						fail("not-random", "UUID %x is not what the random source delivered", u[:])
					case used[u]:
						fail("reused", "UUID %x was made twice", u[:])
					}
					used[u] = true
				}
			})
		}
		idle()
	}
}

func (s *counter) block() (u uuid.UUID) {
	_, _ = s.Read(u[:])
	return
}

// ---------------------------------------------------------------- time

type reading struct {
	t   uuid.Time
	seq uint16
}

func times() {
	seen := map[reading]bool{}
	// used holds the sequences that may be the one used last
	type use struct{ seq, at int }
	var used []use
	var k hlib.Clock
	explicit := false
	read := func() {
		from := k.Tick()
		t, seq, err := uuid.GetTime()
		if err != nil {
			fail("failed", "GetTime: %v", err)
			return
		}
		vsim.Event("time %d %x", t, seq)
		r := reading{t, seq & 0x3fff}
		if seq&0xc000 != 0x8000 {
			fail("sequence-range", "clock sequence %x without its variant", seq)
		}
		if seen[r] && !explicit {
			fail("repeated", "time %d with clock sequence %x was handed out twice", t, seq)
		}
		seen[r] = true
		kept := []use{{int(seq & 0x3fff), k.Tick()}}
		for _, u := range used {
			if u.at > from {
				kept = append(kept, u)
			}
		}
		used = kept
	}
	// check compares the reported sequence with the one used last
	check := func() {
		q := uuid.ClockSequence()
		vsim.Event("sequence %x", q)
		if q < 0 || q > 0x3fff {
			fail("sequence-range", "clock sequence %x has more than 14 bits", q)
		}
		fine := len(used) == 0
		for _, u := range used {
			fine = fine || u.seq == q
		}
		if !fine {
			fail("sequence-wrong", "clock sequence %x is reported, %x was used last", q, used)
		}
		used = []use{{q, k.Tick()}}
	}
	if vsim.Flip(0.2, "first.sequence") {
		check()
	}
	for phase := 1 + vsim.Choose(4, "phases"); phase > 0; phase-- {
		gs := 1 + vsim.Choose(5, "goroutines")
		for g := gs; g > 0; g-- {
			n := 1 + vsim.Choose(24/gs, "reads")
			vsim.GoHarness(func() {
				for ; n > 0; n-- {
					switch vsim.Choose(8, "clock") {
					case 0:
						vsim.SleepNs(int64(1 + vsim.Choose(1000, "clock.ns")))
					case 1:
						vsim.SleepNs(int64(100 * (1 + vsim.Choose(20, "clock.ticks"))))
					case 2:
						d := int64(100 * vsim.Choose(30, "clock.back"))
						vsim.Count("fault:clock-back")
						vsim.Event("clock back %d", d)
						vsim.JumpWall(-d)
					case 3:
						if vsim.Flip(0.3, "clock.far") {
							d := int64(vsim.Choose(1000, "clock.jump")-500) * 1000 * ms
							vsim.Count("fault:clock-jump")
							vsim.JumpWall(d)
						}
					}
					read()
				}
			})
		}
		idle()
		check()
		if vsim.Flip(0.3, "set") {
			q := []int{-1, 0, 1, 0x3fff, 0x4000, 0x12345, vsim.Choose(1<<14, "set.seq")}[vsim.Choose(7, "set.which")]
			uuid.SetClockSequence(q)
			vsim.Event("set %d", q)
			explicit = true
			got := uuid.ClockSequence()
			if q >= 0 && got != q&0x3fff {
				fail("sequence-wrong", "clock sequence set to %x but %x is reported", q&0x3fff, got)
			}
			used = []use{{got, k.Tick()}}
		}
	}
}

// standing reads the time many times in one instant.
func standing() {
	seen := map[uint16]bool{}
	n := 1 << 14
	if vsim.Flip(0.5, "partly") {
		n = vsim.Choose(2000, "reads")
	}
	for ; n > 0; n-- {
		_, seq, err := uuid.GetTime()
		if err != nil || seen[seq] {
			fail("repeated", "clock sequence %x repeats after %d readings in one instant (%v)", seq, len(seen), err)
			return
		}
		seen[seq] = true
	}
	if q := uuid.ClockSequence(); q < 0 || q > 0x3fff {
		fail("sequence-range", "clock sequence %x", q)
	}
}

func init() {
	hlib.Register("C22", "randoms", 49, randoms)
	hlib.Register("C22", "bulk", 1, bulk)
	hlib.Register("C23", "times", 199, times)
	hlib.Register("C23", "standing", 1, standing)
}
