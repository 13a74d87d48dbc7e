package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/msgpack/convert"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/types/uuid"
	"vsim"
)

// dice draws a value. Its seed is one decision of the run.
type dice struct {
	x     uint64
	big   bool // there has been a long string
	small bool // there are none
}

func newDice(label string) *dice { return &dice{x: uint64(vsim.Choose(1<<30, label))} }

func (d *dice) u64() uint64 {
	d.x += 0x9e3779b97f4a7c15
	z := d.x
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (d *dice) n(n int) int         { return int(d.u64() % uint64(n)) }
func (d *dice) flip(p float64) bool { return float64(d.u64()>>11)/(1<<53) < p }

var edges = []uint64{0, 1, 15, 16, 31, 32, 33, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1}

func (d *dice) uint(bits int) uint64 {
	var x uint64
	if d.flip(0.7) {
		x = edges[d.n(len(edges))]
	} else {
		x = d.u64() >> d.n(64)
	}
	return x & (1<<bits - 1)
}

func (d *dice) int(bits int) int64 {
	x := int64(d.uint(bits))
	if d.flip(0.5) {
		x = -x
	}
	return x << (64 - bits) >> (64 - bits)
}

func (d *dice) f64() float64 {
	l := []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Pi}
	if d.flip(0.5) {
		return l[d.n(len(l))]
	}
	return math.Float64frombits(d.u64())
}

func (d *dice) f32() float32 {
	if d.flip(0.5) {
		return float32(d.f64())
	}
	f := math.Float32frombits(uint32(d.u64()))
	if f != f {
		return float32(math.NaN())
	}
	return f
}

func (d *dice) size() int {
	switch {
	case d.small || d.flip(0.5):
		return d.n(8)
	case !d.big && d.flip(0.02):
		d.big = true
		return []int{65535, 65536, 65537}[d.n(3)]
	}
	return []int{14, 15, 16, 17, 30, 31, 32, 33, 127, 128, 253, 254, 255, 256, 257, 1000}[d.n(16)]
}

func (d *dice) str() string {
	n := d.size()
	if d.flip(0.2) {
		return strings.Repeat("é", n/2) + strings.Repeat("x", n%2)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (d.x+uint64(i)*7)%26)
	}
	return string(b)
}

func (d *dice) bytes() []byte {
	if d.flip(0.1) {
		return nil
	}
	b := make([]byte, d.size())
	x := d.u64()
	for i := range b {
		b[i] = byte(x >> (i % 8 * 8))
	}
	return b
}

func (d *dice) time(years bool) time.Time {
	nsec := []int64{0, 1, 999999999, 500000000, 4294967}[d.n(5)]
	var t time.Time
	switch d.n(5) {
	case 0:
		t = time.Unix(int64(d.uint(32)), nsec)
	case 1:
		t = time.Unix(int64(d.uint(36)), nsec)
	case 2:
		t = time.Unix(-int64(d.uint(34)), nsec)
	case 3:
		t = time.Unix([]int64{1<<32 - 1, 1 << 32, 1<<34 - 1, 1 << 34, -1}[d.n(5)], nsec)
	}
	if years && (t.UTC().Year() < 1 || t.UTC().Year() > 9998) {
		t = time.Unix(int64(d.uint(32)), nsec)
	}
	if d.flip(0.3) {
		return t.In(time.FixedZone("", 60*(d.n(1600)-800)))
	}
	return t.UTC()
}

// any draws what WriteAny takes.
func (d *dice) any(depth int) any {
	k := d.n(18)
	if depth > 0 && d.flip(0.5) {
		k = 18 + d.n(30)
	}
	switch k {
	case 0, 1:
		return nil
	case 2:
		return d.flip(0.5)
	case 3:
		return int(d.int(64))
	case 4:
		return int8(d.int(8))
	case 5:
		return int16(d.int(16))
	case 6:
		return int32(d.int(32))
	case 7:
		return d.int(64)
	case 8:
		return uint(d.uint(64))
	case 9:
		return uint8(d.uint(8))
	case 10:
		return uint16(d.uint(16))
	case 11:
		return uint32(d.uint(32))
	case 12:
		return d.uint(64)
	case 13:
		return d.f32()
	case 14:
		return d.f64()
	case 15:
		return d.str()
	case 16:
		return d.bytes()
	case 17:
		return d.time(false)
	case 18, 19, 20:
		return many(d, d.few(), func() any { return d.any(depth - 1) })
	case 21:
		return many(d, d.few(), d.str)
	case 22:
		return many(d, d.few(), func() bool { return d.flip(0.5) })
	case 23:
		return many(d, d.few(), func() int { return int(d.int(64)) })
	case 24:
		return many(d, d.few(), func() int8 { return int8(d.int(8)) })
	case 25:
		return many(d, d.few(), func() int16 { return int16(d.int(16)) })
	case 26:
		return many(d, d.few(), func() int32 { return int32(d.int(32)) })
	case 27:
		return many(d, d.few(), func() int64 { return d.int(64) })
	case 28:
		return many(d, d.few(), func() uint { return uint(d.uint(64)) })
	case 29:
		return many(d, d.few(), func() uint16 { return uint16(d.uint(16)) })
	case 30:
		return many(d, d.few(), func() uint32 { return uint32(d.uint(32)) })
	case 31:
		return many(d, d.few(), func() uint64 { return d.uint(64) })
	case 32:
		return many(d, d.few(), func() time.Time { return d.time(false) })
	case 33:
		return many(d, d.few(), d.f32)
	case 34:
		return many(d, d.few(), d.f64)
	case 35:
		return keyed(d, d.str, d.str)
	case 36:
		return keyed(d, d.str, func() any { return d.any(depth - 1) })
	case 37:
		return keyed(d, func() int { return int(d.int(64)) }, func() any { return d.any(depth - 1) })
	case 38:
		return keyed(d, func() int8 { return int8(d.int(8)) }, func() any { return d.any(depth - 1) })
	case 39:
		return keyed(d, func() int16 { return int16(d.int(16)) }, func() any { return d.any(depth - 1) })
	case 40:
		return keyed(d, func() int32 { return int32(d.int(32)) }, func() any { return d.any(depth - 1) })
	case 41:
		return keyed(d, func() int64 { return d.int(64) }, func() any { return d.any(depth - 1) })
	case 42:
		return keyed(d, func() uint { return uint(d.uint(64)) }, func() any { return d.any(depth - 1) })
	case 43:
		return keyed(d, func() uint8 { return uint8(d.uint(8)) }, func() any { return d.any(depth - 1) })
	case 44:
		return keyed(d, func() uint16 { return uint16(d.uint(16)) }, func() any { return d.any(depth - 1) })
	case 45:
		return keyed(d, func() uint32 { return uint32(d.uint(32)) }, func() any { return d.any(depth - 1) })
	case 46:
		return keyed(d, func() uint64 { return d.uint(64) }, func() any { return d.any(depth - 1) })
	}
	m := map[any]any{}
	seen := map[string]bool{}
	for k := d.few(); k > 0; k-- {
		var key any
		switch d.n(4) {
		case 0:
			key = d.str()
		case 1:
			key = d.int(64)
		case 2:
			key = d.flip(0.5)
		case 3:
			key = uint16(d.uint(16))
		}
		if c := canon(key); !seen[c] {
			seen[c] = true
			m[key] = d.any(depth - 1)
		}
	}
	return m
}

// lots is how much a map has, which may be more than two bytes tell.
func (d *dice) lots() int {
	if !d.small && !d.big && d.flip(0.02) {
		d.big = true
		return []int{65535, 65536, 65537}[d.n(3)]
	}
	return d.few()
}

func (d *dice) few() int {
	if d.flip(0.1) {
		return []int{14, 15, 16, 17, 31, 32, 40}[d.n(7)]
	}
	return d.n(5)
}

func many[T any](d *dice, n int, f func() T) []T {
	l := make([]T, 0, n)
	for ; n > 0; n-- {
		l = append(l, f())
	}
	return l
}

func keyed[K comparable, V any](d *dice, k func() K, v func() V) map[K]V {
	m := map[K]V{}
	for n := d.few(); n > 0; n-- {
		m[k()] = v()
	}
	return m
}

func maybe[T any](d *dice, f func() T) *T {
	if d.flip(0.4) {
		return nil
	}
	v := f()
	return &v
}

// canon writes down a value so that it can be compared with what MessagePack
// keeps of it.
func canon(v any) string {
	var b strings.Builder
	canonTo(&b, reflect.ValueOf(v))
	return b.String()
}

type canonical interface{ canon() string }

func canonTime(b *strings.Builder, sec int64, nsec int64) { fmt.Fprintf(b, "t:%d.%09d", sec, nsec) }

// canonFloat writes a number; which kind of NaN it is does not matter.
func canonFloat(b *strings.Builder, format string, f float64, bits uint64) {
	if f != f {
		b.WriteString(format[:2] + "NaN")
		return
	}
	fmt.Fprintf(b, format, bits)
}

func canonTo(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case time.Time:
			canonTime(b, x.Unix(), int64(x.Nanosecond()))
			return
		case canonical:
			if v.Kind() != reflect.Pointer || !v.IsNil() {
				b.WriteString(x.canon())
				return
			}
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			canonTo(b, v.Elem())
		}
	case reflect.Bool:
		fmt.Fprintf(b, "%t", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "i:%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(b, "i:%d", v.Uint())
	case reflect.Float32:
		canonFloat(b, "f:%08x", v.Float(), uint64(math.Float32bits(float32(v.Float()))))
	case reflect.Float64:
		canonFloat(b, "d:%016x", v.Float(), math.Float64bits(v.Float()))
	case reflect.String:
		fmt.Fprintf(b, "s:%q", v.String())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "b:%x", v.Bytes())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			canonTo(b, v.Index(i))
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		var l []string
		for it := v.MapRange(); it.Next(); {
			var e strings.Builder
			canonTo(&e, it.Key())
			e.WriteString("=")
			canonTo(&e, it.Value())
			l = append(l, e.String())
		}
		canonMap(b, l)
	default:
		fmt.Fprintf(b, "?%v", v)
	}
}

func canonMap(b *strings.Builder, l []string) {
	sort.Strings(l)
	b.WriteString("{" + strings.Join(l, ",") + "}")
}

// wire reads one value according to the MessagePack specification and returns
// what follows.
func wire(b *strings.Builder, p []byte) ([]byte, bool) {
	if len(p) == 0 {
		return nil, false
	}
	c := p[0]
	p = p[1:]
	num := func(n int) (x uint64, ok bool) {
		if len(p) < n {
			return 0, false
		}
		for _, y := range p[:n] {
			x = x<<8 | uint64(y)
		}
		p = p[n:]
		return x, true
	}
	blob := func(n uint64, format string) bool {
		if n > uint64(len(p)) {
			return false
		}
		fmt.Fprintf(b, format, p[:n])
		p = p[n:]
		return true
	}
	list := func(n uint64) ([]byte, bool) {
		b.WriteString("[")
		ok := true
		for ; n > 0; n-- {
			if p, ok = wire(b, p); !ok {
				return nil, false
			}
			b.WriteString(",")
		}
		b.WriteString("]")
		return p, true
	}
	table := func(n uint64) ([]byte, bool) {
		var l []string
		ok := true
		for ; n > 0; n-- {
			var e strings.Builder
			if p, ok = wire(&e, p); !ok {
				return nil, false
			}
			e.WriteString("=")
			if p, ok = wire(&e, p); !ok {
				return nil, false
			}
			l = append(l, e.String())
		}
		canonMap(b, l)
		return p, true
	}
	ext := func(n uint64) ([]byte, bool) {
		if uint64(len(p)) < n+1 {
			return nil, false
		}
		id, d := int8(p[0]), p[1:n+1]
		p = p[n+1:]
		if id != -1 {
			fmt.Fprintf(b, "x%d:%x", id, d)
			return p, true
		}
		switch n {
		case 4:
			canonTime(b, int64(binary.BigEndian.Uint32(d)), 0)
		case 8:
			x := binary.BigEndian.Uint64(d)
			canonTime(b, int64(x&(1<<34-1)), int64(x>>34))
		case 12:
			canonTime(b, int64(binary.BigEndian.Uint64(d[4:])), int64(binary.BigEndian.Uint32(d)))
		default:
			return nil, false
		}
		return p, true
	}
	switch {
	case c < 0x80 || c >= 0xe0:
		fmt.Fprintf(b, "i:%d", int8(c))
		return p, true
	case c < 0x90:
		return table(uint64(c & 15))
	case c < 0xa0:
		return list(uint64(c & 15))
	case c < 0xc0:
		return p, blob(uint64(c&31), "s:%q")
	}
	pow := func(base byte) int { return 1 << (c - base) }
	switch c {
	case 0xc0:
		b.WriteString("nil")
	case 0xc2:
		b.WriteString("false")
	case 0xc3:
		b.WriteString("true")
	case 0xc4, 0xc5, 0xc6:
		n, ok := num(pow(0xc4))
		ok = ok && blob(n, "b:%x")
		return p, ok
	case 0xc7, 0xc8, 0xc9:
		n, ok := num(pow(0xc7))
		if !ok {
			return nil, false
		}
		return ext(n)
	case 0xca:
		n, ok := num(4)
		canonFloat(b, "f:%08x", float64(math.Float32frombits(uint32(n))), n)
		return p, ok
	case 0xcb:
		n, ok := num(8)
		canonFloat(b, "d:%016x", math.Float64frombits(n), n)
		return p, ok
	case 0xcc, 0xcd, 0xce, 0xcf:
		n, ok := num(pow(0xcc))
		fmt.Fprintf(b, "i:%d", n)
		return p, ok
	case 0xd0, 0xd1, 0xd2, 0xd3:
		k := pow(0xd0)
		n, ok := num(k)
		fmt.Fprintf(b, "i:%d", int64(n)<<(64-8*k)>>(64-8*k))
		return p, ok
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return ext(uint64(pow(0xd4)))
	case 0xd9, 0xda, 0xdb:
		n, ok := num(pow(0xd9))
		ok = ok && blob(n, "s:%q")
		return p, ok
	case 0xdc, 0xdd:
		n, ok := num(2 * pow(0xdc))
		if !ok {
			return nil, false
		}
		return list(n)
	case 0xde, 0xdf:
		n, ok := num(2 * pow(0xde))
		if !ok {
			return nil, false
		}
		return table(n)
	default:
		return nil, false
	}
	return p, true
}

// valueKind is a type of values and the way it is sent.
type valueKind struct {
	name  string
	gen   func(d *dice) any
	enc   func(any) (payload.Payload, error)
	dec   func(payload.Payload) (any, error)
	wire  func(v any) string // what is on the wire
	plain bool               // a value is on the wire as what it is
	hurt  func(v any)        // does to a received value what its owner may do
}

func kindOf[T any](name string, gen func(d *dice) T, enc func(T) (payload.Payload, error), dec func(payload.Payload) (T, error)) *valueKind {
	return &valueKind{
		name: name,
		gen:  func(d *dice) any { return gen(d) },
		enc: func(v any) (payload.Payload, error) {
			x, _ := v.(T)
			return enc(x)
		},
		dec: func(p payload.Payload) (any, error) {
			v, err := dec(p)
			return v, err
		},
		wire:  canon,
		plain: true,
	}
}

func trans[T any](name string, gen func(d *dice) T, t transform.Transform[T]) *valueKind {
	return kindOf(name, gen, t.Encode, t.Decode)
}

// raw sends values with the functions of the MessagePack package alone.
func raw[T any](name string, gen func(d *dice) T, enc func(T) ([]byte, error), dec func(msgpack.Reader) (T, error)) *valueKind {
	return kindOf(name, gen, func(v T) (payload.Payload, error) {
		b, err := enc(v)
		return payload.New(b), err
	}, func(p payload.Payload) (T, error) {
		d := msgpack.NewDecoder(p.Data())
		return dec(&d)
	})
}

type (
	level int32
	count int64
	size  uint64
	ratio float32
	score float64
	color string
	on    bool
	blob  []byte
)

var timeText = kindOf("Time", func(d *dice) time.Time { return d.time(true) }, transform.Time.Encode, transform.Time.Decode)

func valueKinds() []*valueKind {
	timeText.plain = false
	timeText.wire = func(v any) string { return canon(v.(time.Time).Format(time.RFC3339Nano)) }
	any3 := func(d *dice) any { return d.any(3) }
	id := kindOf("uuid", func(d *dice) uuid.UUID {
		var u uuid.UUID
		binary.BigEndian.PutUint64(u[:], d.u64())
		binary.BigEndian.PutUint64(u[8:], d.u64())
		return u
	}, transform.ToStringEncode(uuid.UUID.String), transform.ToStringDecode(uuid.Parse))
	id.plain = false
	id.wire = func(v any) string {
		u := v.(uuid.UUID)
		return canon(fmt.Sprintf("%x-%x-%x-%x-%x", u[:4], u[4:6], u[6:8], u[8:10], u[10:]))
	}
	rec := kindOf("record", func(d *dice) record { return *newRecord(d, 2) }, transform.MsgPackEncode[record], transform.MsgPackDecode[record])
	rec.hurt = func(v any) {
		r := v.(record)
		r.spoil()
	}
	recs := kindOf("records", func(d *dice) []*record {
		return many(d, d.n(4), func() *record {
			if d.flip(0.2) {
				return nil
			}
			return newRecord(d, 1)
		})
	}, transform.SliceEncode(func(w msgpack.Writer, r *record) { _ = r.Encode(w) }),
		transform.SliceDecode(msgpack.DecodeNillable[record, *record]))
	recs.hurt = func(v any) {
		for _, r := range v.([]*record) {
			if r != nil {
				r.spoil()
			}
		}
	}
	str := func(d *dice) string { return d.str() }
	return []*valueKind{
		trans("String", str, transform.String),
		trans("Int", func(d *dice) int { return int(d.int(64)) }, transform.Int),
		trans("Int64", func(d *dice) int64 { return d.int(64) }, transform.Int64),
		trans("Int32", func(d *dice) int32 { return int32(d.int(32)) }, transform.Int32),
		trans("Int16", func(d *dice) int16 { return int16(d.int(16)) }, transform.Int16),
		trans("Int8", func(d *dice) int8 { return int8(d.int(8)) }, transform.Int8),
		trans("Uint", func(d *dice) uint { return uint(d.uint(64)) }, transform.Uint),
		trans("Uint64", func(d *dice) uint64 { return d.uint(64) }, transform.Uint64),
		trans("Uint32", func(d *dice) uint32 { return uint32(d.uint(32)) }, transform.Uint32),
		trans("Uint16", func(d *dice) uint16 { return uint16(d.uint(16)) }, transform.Uint16),
		trans("Uint8", func(d *dice) uint8 { return uint8(d.uint(8)) }, transform.Uint8),
		trans("Float64", (*dice).f64, transform.Float64),
		trans("Float32", (*dice).f32, transform.Float32),
		trans("Bytes", (*dice).bytes, transform.Bytes),
		trans("Bool", func(d *dice) bool { return d.flip(0.5) }, transform.Bool),
		timeText,
		trans("Any", any3, transform.Any),
		trans("Any", any3, transform.Any),
		trans("Any", any3, transform.Any),
		rec, rec, rec, recs, id,
		kindOf("int32", func(d *dice) level { return level(d.int(32)) }, transform.Int32Encode[level], transform.Int32Decode[level]),
		kindOf("int64", func(d *dice) count { return count(d.int(64)) }, transform.Int64Encode[count], transform.Int64Decode[count]),
		kindOf("uint64", func(d *dice) size { return size(d.uint(64)) }, transform.Uint64Encode[size], transform.Uint64Decode[size]),
		kindOf("float32", func(d *dice) ratio { return ratio(d.f32()) }, transform.Float32Encode[ratio], transform.Float32Decode[ratio]),
		kindOf("float64", func(d *dice) score { return score(d.f64()) }, transform.Float64Encode[score], transform.Float64Decode[score]),
		kindOf("string", func(d *dice) color { return color(d.str()) }, transform.StringEncode[color], transform.StringDecode[color]),
		kindOf("strings", func(d *dice) []string { return many(d, d.few(), d.str) },
			transform.SliceEncode(msgpack.Writer.WriteString), transform.SliceDecode(msgpack.Reader.ReadString)),
		kindOf("ints", func(d *dice) []int64 { return many(d, d.size(), func() int64 { return d.int(64) }) },
			transform.SliceEncode(msgpack.Writer.WriteInt64), transform.SliceDecode(msgpack.Reader.ReadInt64)),
		kindOf("times", func(d *dice) []time.Time { return many(d, d.few(), func() time.Time { return d.time(false) }) },
			transform.SliceEncode(msgpack.Writer.WriteTime), transform.SliceDecode(msgpack.Reader.ReadTime)),
		kindOf("map", func(d *dice) map[string]int64 {
			return keyed(d, func() string { return d.str() }, func() int64 { return d.int(64) })
		},
			transform.MapEncode(msgpack.Writer.WriteString, msgpack.Writer.WriteInt64), transform.MapDecode(msgpack.Reader.ReadString, msgpack.Reader.ReadInt64)),
		raw("I8", func(d *dice) int8 { return int8(d.int(8)) }, msgpack.I8ToBytes, msgpack.Reader.ReadInt8),
		raw("I16", func(d *dice) int16 { return int16(d.int(16)) }, msgpack.I16ToBytes, msgpack.Reader.ReadInt16),
		raw("I32", func(d *dice) int32 { return int32(d.int(32)) }, msgpack.I32ToBytes, msgpack.Reader.ReadInt32),
		raw("I64", func(d *dice) int64 { return d.int(64) }, msgpack.I64ToBytes, msgpack.Reader.ReadInt64),
		raw("U8", func(d *dice) uint8 { return uint8(d.uint(8)) }, msgpack.U8ToBytes, msgpack.Reader.ReadUint8),
		raw("U16", func(d *dice) uint16 { return uint16(d.uint(16)) }, msgpack.U16ToBytes, msgpack.Reader.ReadUint16),
		raw("U32", func(d *dice) uint32 { return uint32(d.uint(32)) }, msgpack.U32ToBytes, msgpack.Reader.ReadUint32),
		raw("U64", func(d *dice) uint64 { return d.uint(64) }, msgpack.U64ToBytes, msgpack.Reader.ReadUint64),
		raw("F32", (*dice).f32, msgpack.F32ToBytes, msgpack.Reader.ReadFloat32),
		raw("F64", (*dice).f64, msgpack.F64ToBytes, msgpack.Reader.ReadFloat64),
		raw("B", func(d *dice) bool { return d.flip(0.5) }, msgpack.BoolToBytes, msgpack.Reader.ReadBool),
		raw("S", str, msgpack.StringToBytes, msgpack.Reader.ReadString),
		raw("Bin", (*dice).bytes, msgpack.BytesToBytes, msgpack.Reader.ReadByteArray),
		raw("T", func(d *dice) time.Time { return d.time(false) }, msgpack.TimeToBytes, msgpack.Reader.ReadTime),
		raw("Slice", func(d *dice) []uint64 { return many(d, d.size(), func() uint64 { return d.uint(64) }) },
			func(l []uint64) ([]byte, error) { return msgpack.SliceToBytes(l, msgpack.Writer.WriteUint64) },
			func(r msgpack.Reader) ([]uint64, error) { return msgpack.ReadSlice(r, msgpack.Reader.ReadUint64) }),
		raw("Map", func(d *dice) map[int32]bool {
			m := map[int32]bool{}
			for n := d.lots(); len(m) < n; {
				m[int32(d.u64())>>d.n(16)] = d.flip(0.5)
			}
			return m
		},
			func(m map[int32]bool) ([]byte, error) {
				return msgpack.MapToBytes(m, msgpack.Writer.WriteInt32, msgpack.Writer.WriteBool)
			},
			func(r msgpack.Reader) (map[int32]bool, error) {
				return msgpack.ReadMap(r, msgpack.Reader.ReadInt32, msgpack.Reader.ReadBool)
			}),
		raw("Rec", func(d *dice) record { return *newRecord(d, 1) },
			func(r record) ([]byte, error) { return msgpack.ToBytes(&r) }, msgpack.Decode[record, *record]),
	}
}

// ---------------------------------------------------------------- records

// record is what a code generator makes of a type: fields in a map, and
// unknown ones are skipped.
type record struct {
	B    bool
	I8   int8
	I16  int16
	I32  int32
	I64  int64
	U8   uint8
	U16  uint16
	U32  uint32
	U64  uint64
	F32  float32
	F64  float64
	S    string
	Bin  []byte
	T    time.Time
	NB   *bool
	NI8  *int8
	NI16 *int16
	NI32 *int32
	NI64 *int64
	NU8  *uint8
	NU16 *uint16
	NU32 *uint32
	NU64 *uint64
	NF32 *float32
	NF64 *float64
	NS   *string
	NBin []byte
	NT   *time.Time
	Any  any
	Tags []string
	Attr map[string]int64
	Sub  *record

	Color  color
	NColor *color
	Level  level
	NLevel *level
	Score  score
	NScore *score
	On     on
	NOn    *on
	Blob   blob
	At     time.Time
	NAt    *time.Time
	ID     uuid.UUID
	NID    *uuid.UUID

	turn int // the field that is written first
}

func newRecord(d *dice, depth int) *record {
	r := &record{
		B: d.flip(0.5), I8: int8(d.int(8)), I16: int16(d.int(16)), I32: int32(d.int(32)), I64: d.int(64),
		U8: uint8(d.uint(8)), U16: uint16(d.uint(16)), U32: uint32(d.uint(32)), U64: d.uint(64), F32: d.f32(), F64: d.f64(),
		S: d.str(), Bin: d.bytes(), T: d.time(false),
		NB: maybe(d, func() bool { return d.flip(0.5) }), NI8: maybe(d, func() int8 { return int8(d.int(8)) }),
		NI16: maybe(d, func() int16 { return int16(d.int(16)) }), NI32: maybe(d, func() int32 { return int32(d.int(32)) }),
		NI64: maybe(d, func() int64 { return d.int(64) }), NU8: maybe(d, func() uint8 { return uint8(d.uint(8)) }),
		NU16: maybe(d, func() uint16 { return uint16(d.uint(16)) }), NU32: maybe(d, func() uint32 { return uint32(d.uint(32)) }),
		NU64: maybe(d, func() uint64 { return d.uint(64) }), NF32: maybe(d, d.f32), NF64: maybe(d, d.f64), NS: maybe(d, d.str),
		NBin: d.bytes(), NT: maybe(d, func() time.Time { return d.time(false) }), Any: d.any(2), Tags: many(d, d.few(), d.str),
		Attr:  keyed(d, d.str, func() int64 { return d.int(64) }),
		Color: color(d.str()), NColor: maybe(d, func() color { return color(d.str()) }), Level: level(d.int(32)),
		NLevel: maybe(d, func() level { return level(d.int(32)) }), Score: score(d.f64()), NScore: maybe(d, func() score { return score(d.f64()) }),
		On: on(d.flip(0.5)), NOn: maybe(d, func() on { return on(d.flip(0.5)) }), Blob: blob(d.bytes()),
		At: d.time(true), NAt: maybe(d, func() time.Time { return d.time(true) }), turn: d.n(100),
	}
	binary.BigEndian.PutUint64(r.ID[3:], d.u64())
	r.NID = maybe(d, func() uuid.UUID { return r.ID })
	if depth > 0 && d.flip(0.4) {
		r.Sub = newRecord(d, depth-1)
	}
	return r
}

// spoil appends to byte slices, which must not change anything else.
func (r *record) spoil() {
	junk := bytes.Repeat([]byte{0xee}, 40)
	_ = append(r.Bin, junk...)
	_ = append(r.NBin, junk...)
	_ = append(r.Blob, junk...)
}

func uuidText(u uuid.UUID) string { return u.String() }

type recordField struct {
	name string
	put  func(r *record, w msgpack.Writer)
	get  func(r *record, d msgpack.Reader) error
	own  func(r *record) any // the field as it is on the wire
}

func fieldOf[T any](name string, at func(r *record) *T, put func(msgpack.Writer, T), get func(msgpack.Reader) (T, error)) recordField {
	return recordField{
		name: name,
		put:  func(r *record, w msgpack.Writer) { put(w, *at(r)) },
		get: func(r *record, d msgpack.Reader) (err error) {
			*at(r), err = get(d)
			return err
		},
		own: func(r *record) any { return *at(r) },
	}
}

func textOf[T any](f recordField, at func(r *record) *T, text func(T) any) recordField {
	f.own = func(r *record) any { return text(*at(r)) }
	return f
}

func stamp(t time.Time) any { return t.Format(time.RFC3339Nano) }

func stampPtr(t *time.Time) any {
	if t == nil {
		return nil
	}
	return t.Format(time.RFC3339Nano)
}

var recordFields []recordField

func init() {
	recordFields = []recordField{
		fieldOf("b", func(r *record) *bool { return &r.B }, msgpack.Writer.WriteBool, msgpack.Reader.ReadBool),
		fieldOf("i8", func(r *record) *int8 { return &r.I8 }, msgpack.Writer.WriteInt8, msgpack.Reader.ReadInt8),
		fieldOf("i16", func(r *record) *int16 { return &r.I16 }, msgpack.Writer.WriteInt16, msgpack.Reader.ReadInt16),
		fieldOf("i32", func(r *record) *int32 { return &r.I32 }, msgpack.Writer.WriteInt32, msgpack.Reader.ReadInt32),
		fieldOf("i64", func(r *record) *int64 { return &r.I64 }, msgpack.Writer.WriteInt64, msgpack.Reader.ReadInt64),
		fieldOf("u8", func(r *record) *uint8 { return &r.U8 }, msgpack.Writer.WriteUint8, msgpack.Reader.ReadUint8),
		fieldOf("u16", func(r *record) *uint16 { return &r.U16 }, msgpack.Writer.WriteUint16, msgpack.Reader.ReadUint16),
		fieldOf("u32", func(r *record) *uint32 { return &r.U32 }, msgpack.Writer.WriteUint32, msgpack.Reader.ReadUint32),
		fieldOf("u64", func(r *record) *uint64 { return &r.U64 }, msgpack.Writer.WriteUint64, msgpack.Reader.ReadUint64),
		fieldOf("f32", func(r *record) *float32 { return &r.F32 }, msgpack.Writer.WriteFloat32, msgpack.Reader.ReadFloat32),
		fieldOf("f64", func(r *record) *float64 { return &r.F64 }, msgpack.Writer.WriteFloat64, msgpack.Reader.ReadFloat64),
		fieldOf("s", func(r *record) *string { return &r.S }, msgpack.Writer.WriteString, msgpack.Reader.ReadString),
		fieldOf("bin", func(r *record) *[]byte { return &r.Bin }, msgpack.Writer.WriteByteArray, msgpack.Reader.ReadByteArray),
		fieldOf("t", func(r *record) *time.Time { return &r.T }, msgpack.Writer.WriteTime, msgpack.Reader.ReadTime),
		fieldOf("nb", func(r *record) **bool { return &r.NB }, msgpack.Writer.WriteNillableBool, msgpack.Reader.ReadNillableBool),
		fieldOf("ni8", func(r *record) **int8 { return &r.NI8 }, msgpack.Writer.WriteNillableInt8, msgpack.Reader.ReadNillableInt8),
		fieldOf("ni16", func(r *record) **int16 { return &r.NI16 }, msgpack.Writer.WriteNillableInt16, msgpack.Reader.ReadNillableInt16),
		fieldOf("ni32", func(r *record) **int32 { return &r.NI32 }, msgpack.Writer.WriteNillableInt32, msgpack.Reader.ReadNillableInt32),
		fieldOf("ni64", func(r *record) **int64 { return &r.NI64 }, msgpack.Writer.WriteNillableInt64, msgpack.Reader.ReadNillableInt64),
		fieldOf("nu8", func(r *record) **uint8 { return &r.NU8 }, msgpack.Writer.WriteNillableUint8, msgpack.Reader.ReadNillableUint8),
		fieldOf("nu16", func(r *record) **uint16 { return &r.NU16 }, msgpack.Writer.WriteNillableUint16, msgpack.Reader.ReadNillableUint16),
		fieldOf("nu32", func(r *record) **uint32 { return &r.NU32 }, msgpack.Writer.WriteNillableUint32, msgpack.Reader.ReadNillableUint32),
		fieldOf("nu64", func(r *record) **uint64 { return &r.NU64 }, msgpack.Writer.WriteNillableUint64, msgpack.Reader.ReadNillableUint64),
		fieldOf("nf32", func(r *record) **float32 { return &r.NF32 }, msgpack.Writer.WriteNillableFloat32, msgpack.Reader.ReadNillableFloat32),
		fieldOf("nf64", func(r *record) **float64 { return &r.NF64 }, msgpack.Writer.WriteNillableFloat64, msgpack.Reader.ReadNillableFloat64),
		fieldOf("ns", func(r *record) **string { return &r.NS }, msgpack.Writer.WriteNillableString, msgpack.Reader.ReadNillableString),
		textOf(fieldOf("nbin", func(r *record) *[]byte { return &r.NBin }, msgpack.Writer.WriteNillableByteArray, msgpack.Reader.ReadNillableByteArray),
			func(r *record) *[]byte { return &r.NBin }, func(b []byte) any {
				if b == nil {
					return nil
				}
				return b
			}),
		fieldOf("nt", func(r *record) **time.Time { return &r.NT }, msgpack.Writer.WriteNillableTime, msgpack.Reader.ReadNillableTime),
		fieldOf("any", func(r *record) *any { return &r.Any }, msgpack.Writer.WriteAny, msgpack.Reader.ReadAny),
		fieldOf("tags", func(r *record) *[]string { return &r.Tags },
			func(w msgpack.Writer, l []string) { _ = msgpack.WriteSlice(w, l, msgpack.Writer.WriteString) },
			func(d msgpack.Reader) ([]string, error) { return msgpack.ReadSlice(d, msgpack.Reader.ReadString) }),
		fieldOf("attr", func(r *record) *map[string]int64 { return &r.Attr },
			func(w msgpack.Writer, m map[string]int64) {
				_ = msgpack.WriteMap(w, m, msgpack.Writer.WriteString, msgpack.Writer.WriteInt64)
			},
			func(d msgpack.Reader) (map[string]int64, error) {
				return msgpack.ReadMap(d, msgpack.Reader.ReadString, msgpack.Reader.ReadInt64)
			}),
		fieldOf("sub", func(r *record) **record { return &r.Sub }, func(w msgpack.Writer, s *record) { _ = s.Encode(w) }, msgpack.DecodeNillable[record, *record]),
		fieldOf("color", func(r *record) *color { return &r.Color }, func(w msgpack.Writer, v color) { w.WriteString(string(v)) },
			func(d msgpack.Reader) (color, error) { return convert.String[color](d.ReadString()) }),
		fieldOf("ncolor", func(r *record) **color { return &r.NColor }, func(w msgpack.Writer, v *color) { w.WriteNillableString((*string)(v)) },
			func(d msgpack.Reader) (*color, error) { return convert.NillableString[color](d.ReadNillableString()) }),
		fieldOf("level", func(r *record) *level { return &r.Level }, func(w msgpack.Writer, v level) { w.WriteInt32(int32(v)) },
			func(d msgpack.Reader) (level, error) { return convert.Numeric[level](d.ReadInt32()) }),
		fieldOf("nlevel", func(r *record) **level { return &r.NLevel }, func(w msgpack.Writer, v *level) { w.WriteNillableInt32((*int32)(v)) },
			func(d msgpack.Reader) (*level, error) { return convert.NillableNumeric[level](d.ReadNillableInt32()) }),
		fieldOf("score", func(r *record) *score { return &r.Score }, func(w msgpack.Writer, v score) { w.WriteFloat64(float64(v)) },
			func(d msgpack.Reader) (score, error) { return convert.Numeric[score](d.ReadFloat64()) }),
		fieldOf("nscore", func(r *record) **score { return &r.NScore }, func(w msgpack.Writer, v *score) { w.WriteNillableFloat64((*float64)(v)) },
			func(d msgpack.Reader) (*score, error) { return convert.NillableNumeric[score](d.ReadNillableFloat64()) }),
		fieldOf("on", func(r *record) *on { return &r.On }, func(w msgpack.Writer, v on) { w.WriteBool(bool(v)) },
			func(d msgpack.Reader) (on, error) { return convert.Bool[on](d.ReadBool()) }),
		fieldOf("non", func(r *record) **on { return &r.NOn }, func(w msgpack.Writer, v *on) { w.WriteNillableBool((*bool)(v)) },
			func(d msgpack.Reader) (*on, error) { return convert.NillableBool[on](d.ReadNillableBool()) }),
		fieldOf("blob", func(r *record) *blob { return &r.Blob }, func(w msgpack.Writer, v blob) { w.WriteByteArray(v) },
			func(d msgpack.Reader) (blob, error) { return convert.ByteArray[blob](d.ReadByteArray()) }),
		textOf(fieldOf("at", func(r *record) *time.Time { return &r.At }, func(w msgpack.Writer, v time.Time) { w.WriteString(convert.TimeToString(v)) },
			func(d msgpack.Reader) (time.Time, error) { return convert.StringToTime(d.ReadString()) }),
			func(r *record) *time.Time { return &r.At }, stamp),
		textOf(fieldOf("nat", func(r *record) **time.Time { return &r.NAt }, func(w msgpack.Writer, v *time.Time) { w.WriteNillableString(convert.TimeToStringPtr(v)) },
			func(d msgpack.Reader) (*time.Time, error) { return convert.StringToTimePtr(d.ReadNillableString()) }),
			func(r *record) **time.Time { return &r.NAt }, stampPtr),
		textOf(fieldOf("id", func(r *record) *uuid.UUID { return &r.ID }, func(w msgpack.Writer, v uuid.UUID) { w.WriteString(v.String()) },
			func(d msgpack.Reader) (uuid.UUID, error) { return convert.Parse(uuid.Parse)(d.ReadString()) }),
			func(r *record) *uuid.UUID { return &r.ID }, func(u uuid.UUID) any { return u.String() }),
		textOf(fieldOf("nid", func(r *record) **uuid.UUID { return &r.NID },
			func(w msgpack.Writer, v *uuid.UUID) {
				w.WriteNillableString(convert.Format(func(u *uuid.UUID) string { return u.String() })(v))
			},
			func(d msgpack.Reader) (*uuid.UUID, error) {
				return convert.NillableParse(uuid.Parse)(d.ReadNillableString())
			}),
			func(r *record) **uuid.UUID { return &r.NID }, func(u *uuid.UUID) any {
				if u == nil {
					return nil
				}
				return u.String()
			}),
	}
}

func (r *record) Encode(w msgpack.Writer) error {
	if r == nil {
		w.WriteNil()
		return nil
	}
	n := len(recordFields)
	w.WriteMapSize(uint32(n))
	for k := range recordFields {
		f := recordFields[(k+r.turn)%n]
		w.WriteString(f.name)
		f.put(r, w)
	}
	return w.Err()
}

func (r *record) Decode(d msgpack.Reader) error {
	n, err := d.ReadMapSize()
	if err != nil {
		return err
	}
next:
	for ; n > 0; n-- {
		name, err := d.ReadString()
		if err != nil {
			return err
		}
		for _, f := range recordFields {
			if f.name == name {
				if err := f.get(r, d); err != nil {
					return err
				}
				continue next
			}
		}
		if err := d.Skip(); err != nil {
			return err
		}
	}
	return nil
}

func (r record) canon() string {
	var b strings.Builder
	var l []string
	for _, f := range recordFields {
		l = append(l, canon(f.name)+"="+canon(f.own(&r)))
	}
	canonMap(&b, l)
	return b.String()
}

// reform writes a value down in other forms that MessagePack allows for it and
// returns what follows the value.
func reform(d *dice, b, p []byte) (out, rest []byte) {
	be := func(n int, x uint64) []byte {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], x)
		return b[8-n:]
	}
	c := p[0]
	num := func(n int) (x uint64) {
		for _, y := range p[1 : 1+n] {
			x = x<<8 | uint64(y)
		}
		p = p[n:]
		return x
	}
	whole := func(x int64, u uint64, negative bool) []byte {
		for {
			w := d.n(4)
			bits := uint(8 << w)
			if !negative && (bits == 64 || u>>bits == 0) && d.flip(0.5) {
				return append(append(b, 0xcc+byte(w)), be(1<<w, u)...)
			}
			if (negative || u>>63 == 0) && x<<(64-bits)>>(64-bits) == x {
				return append(append(b, 0xd0+byte(w)), be(1<<w, uint64(x))...)
			}
		}
	}
	// header writes a length; from is the first of its three codes
	header := func(from byte, widths []int, n uint64) {
		for {
			k := d.n(len(widths))
			if w := widths[k]; w == 4 || n>>(8*w) == 0 {
				b = append(append(b, from+byte(k)), be(w, n)...)
				return
			}
		}
	}
	blob := func(from byte, n uint64) ([]byte, []byte) {
		header(from, []int{1, 2, 4}, n)
		return append(b, p[1:1+n]...), p[1+n:]
	}
	items := func(from byte, n, each uint64) ([]byte, []byte) {
		header(from, []int{2, 4}, n)
		p = p[1:]
		for n *= each; n > 0; n-- {
			b, p = reform(d, b, p)
		}
		return b, p
	}
	pow := func(base byte) int { return 1 << (c - base) }
	switch {
	case c < 0x80 || c >= 0xe0:
		return whole(int64(int8(c)), uint64(c), c >= 0x80), p[1:]
	case c < 0x90:
		return items(0xde, uint64(c&15), 2)
	case c < 0xa0:
		return items(0xdc, uint64(c&15), 1)
	case c < 0xc0:
		return blob(0xd9, uint64(c&31))
	}
	switch c {
	case 0xc4, 0xc5, 0xc6:
		return blob(0xc4, num(pow(0xc4)))
	case 0xca:
		return append(b, p[:5]...), p[5:]
	case 0xcb:
		return append(b, p[:9]...), p[9:]
	case 0xcc, 0xcd, 0xce, 0xcf:
		u := num(pow(0xcc))
		return whole(int64(u), u, false), p[1:]
	case 0xd0, 0xd1, 0xd2, 0xd3:
		k := pow(0xd0)
		x := int64(num(k)) << (64 - 8*k) >> (64 - 8*k)
		return whole(x, uint64(x), x < 0), p[1:]
	case 0xd6, 0xd7: // times
		var sec, nsec uint64
		if c == 0xd6 {
			sec = uint64(binary.BigEndian.Uint32(p[2:]))
			p = p[6:]
		} else {
			x := binary.BigEndian.Uint64(p[2:])
			sec, nsec = x&(1<<34-1), x>>34
			p = p[10:]
		}
		if d.flip(0.5) {
			return append(append(b, 0xd7, 0xff), be(8, nsec<<34|sec)...), p
		}
		return append(append(append(b, 0xc7, 12, 0xff), be(4, nsec)...), be(8, sec)...), p
	case 0xc7:
		return append(b, p[:15]...), p[15:]
	case 0xd9, 0xda, 0xdb:
		return blob(0xd9, num(pow(0xd9)))
	case 0xdc, 0xdd:
		return items(0xdc, num(2*pow(0xdc)), 1)
	case 0xde, 0xdf:
		return items(0xde, num(2*pow(0xde)), 2)
	}
	return append(b, c), p[1:]
}

// floatForm writes a number down in the longer form, or in the shorter one if
// that is enough.
func floatForm(f float64) []byte {
	if g := float32(f); f == f && float64(g) == f && len(fmt.Sprint(f))%2 == 0 {
		return binary.BigEndian.AppendUint32([]byte{0xca}, math.Float32bits(g))
	}
	return binary.BigEndian.AppendUint64([]byte{0xcb}, math.Float64bits(f))
}

// misplace puts an empty map, or a text for a map, in the place of a value or
// of some part of it. In a record that is a field with a type of its own.
func misplace(d *dice, p []byte, isRecord bool) []byte {
	var n, each, at int
	switch c := p[0]; {
	case c&0xf0 == 0x80:
		n, each, at = int(c&15), 2, 1
	case c&0xf0 == 0x90:
		n, each, at = int(c&15), 1, 1
	case c == 0xdc, c == 0xde:
		n, each, at = int(binary.BigEndian.Uint16(p[1:])), 1+int(c-0xdc)/2, 3
	case c == 0xdd, c == 0xdf:
		n, each, at = int(binary.BigEndian.Uint32(p[1:])), 1+int(c-0xdc)/2, 5
	default:
		return []byte{0x80}
	}
	if n == 0 || !isRecord && d.flip(0.1) {
		return []byte{0xa1, 'x'}
	}
	var scratch strings.Builder
	key := ""
	for k, hit := 0, d.n(n*each); k < n*each; k++ {
		rest, ok := wire(&scratch, p[at:])
		if !ok {
			return nil
		}
		if isRecord && k%2 == 0 {
			key = scratch.String()
		}
		scratch.Reset()
		if k == hit {
			if isRecord && (k%2 == 0 || key == `s:"any"` || key == `s:"sub"` || key == `s:"attr"`) {
				return nil
			}
			return append(append(bytes.Clone(p[:at]), 0x80), rest...)
		}
		at = len(p) - len(rest)
	}
	return nil
}

// grown adds unknown fields, as a newer version of the sender would, to the
// encoding of a record.
func grown(d *dice, p []byte, unknown []byte) []byte {
	rest := p
	switch p[0] {
	case 0xde:
		rest = p[3:]
	default:
		rest = p[1:]
	}
	n := len(recordFields)
	b := []byte{0xde, byte((n + 1) >> 8), byte(n + 1)}
	field := append([]byte{0xa7, 'u', 'n', 'k', 'n', 'o', 'w', 'n'}, unknown...)
	if d.flip(0.5) {
		return append(append(b, field...), rest...)
	}
	return append(append(b, rest...), field...)
}

// foreign makes a valid value as any implementation of MessagePack may write it.
func foreign(d *dice, depth int) []byte {
	be := func(n int, x uint64) []byte {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], x)
		return b[8-n:]
	}
	some := func(n int) []byte { return bytes.Repeat([]byte{byte(d.u64())}, n) }
	head := func(c byte, sizes int, n int) []byte {
		w := 1 << (sizes % 3)
		if n > 255 && w == 1 {
			w = 2
		}
		if n > 65535 {
			w = 4
		}
		k := map[int]byte{1: 0, 2: 1, 4: 2}[w]
		return append([]byte{c + k}, be(w, uint64(n))...)
	}
	k := d.n(14)
	if depth == 0 && k >= 12 {
		k = d.n(12)
	}
	switch k {
	case 0:
		return []byte{0xc0}
	case 1:
		return []byte{0xc2 + byte(d.n(2))}
	case 2:
		return []byte{byte(d.n(128))}
	case 3:
		return []byte{0xe0 + byte(d.n(32))}
	case 4:
		w := d.n(4)
		return append([]byte{0xcc + byte(w)}, be(1<<w, d.u64())...)
	case 5:
		w := d.n(4)
		return append([]byte{0xd0 + byte(w)}, be(1<<w, d.u64())...)
	case 6:
		return append([]byte{0xca}, be(4, d.u64())...)
	case 7:
		return append([]byte{0xcb}, be(8, d.u64())...)
	case 8:
		n := d.n(32)
		return append([]byte{0xa0 + byte(n)}, some(n)...)
	case 9:
		n := d.size()
		return append(head(0xd9, 1+d.n(2), n), some(n)...)
	case 10:
		n := d.size()
		return append(head(0xc4, 1+d.n(2), n), some(n)...)
	case 11:
		if d.flip(0.5) {
			w := d.n(5)
			return append([]byte{0xd4 + byte(w), byte(d.u64())}, some(1<<w)...)
		}
		n := d.size()
		return append(append(head(0xc7, 1+d.n(2), n), byte(d.u64())), some(n)...)
	case 12:
		n := d.n(5)
		var b []byte
		switch d.n(3) {
		case 0:
			b = []byte{0x90 + byte(n)}
		case 1:
			b = append([]byte{0xdc}, be(2, uint64(n))...)
		case 2:
			b = append([]byte{0xdd}, be(4, uint64(n))...)
		}
		for ; n > 0; n-- {
			b = append(b, foreign(d, depth-1)...)
		}
		return b
	}
	n := d.n(4)
	var b []byte
	switch d.n(3) {
	case 0:
		b = []byte{0x80 + byte(n)}
	case 1:
		b = append([]byte{0xde}, be(2, uint64(n))...)
	case 2:
		b = append([]byte{0xdf}, be(4, uint64(n))...)
	}
	for ; n > 0; n-- {
		b = append(b, foreign(d, depth-1)...)
		b = append(b, foreign(d, depth-1)...)
	}
	return b
}

// evilValue makes a value that no implementation writes.
func evilValue(d *dice) []byte {
	huge := func() []byte {
		c := []byte{0xdb, 0xc6, 0xdd, 0xdf, 0xc9, 0xda, 0xc5, 0xdc, 0xde, 0xc8}[d.n(10)]
		x := []uint32{1<<32 - 1, 1<<32 - 5, 1<<32 - 6, 1<<32 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 30, ^uint32(0) - uint32(d.n(64))}[d.n(9)]
		return append([]byte{c, byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}, make([]byte, d.n(12))...)
	}
	switch d.n(6) {
	case 0, 1:
		return huge()
	case 2: // a key that can not be hashed
		k := [][]byte{{0x90}, {0x80}, {0xc4, 1, 0}, {0x91, 0xc0}, {0xc4, 0}}[d.n(5)]
		return append(append([]byte{0x81}, k...), 0xc0)
	case 3:
		n := []int{100, 5000, 20000, 20000, 20000}[d.n(5)]
		if d.flip(0.1) {
			n = 130000
		}
		b := bytes.Repeat([]byte{0x91}, n)
		if d.flip(0.3) {
			b = bytes.Repeat([]byte{0x81, 0xc0}, n)
		}
		if d.flip(0.3) {
			b = append(b, 0xc0)
		}
		return b
	case 4:
		return append([]byte{0x94, 0xc0, 0x92}, huge()...)
	}
	b := make([]byte, 1+d.n(40))
	for i := range b {
		b[i] = byte(d.u64())
		if d.flip(0.3) {
			b[i] = 0xc0 + byte(d.n(32))
		}
	}
	return b
}
