package stime

import (
	"time"
	"vsim"
)

func Now() time.Time                  { vsim.Y0(); return time.Unix(0, vsim.WallNs()) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { vsim.SleepNs(int64(d)) }

// Timer is a simulated timer.
type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	stop func()
	on   bool
	per  time.Duration
}

// Ticker is a simulated ticker.
type Ticker struct {
	C <-chan Time
	t *Timer
}

func (t *Timer) arm(d time.Duration) {
	t.on = true
	t.stop = vsim.AfterNs(int64(d), func() {
		t.on = false
		if t.f != nil {
			vsim.Go(0, t.f)
			return
		}
		vsim.TrySend(t.c, time.Unix(0, vsim.WallNs()))
		if t.per > 0 {
			t.arm(t.per)
		}
	})
}

func NewTimer(d time.Duration) *Timer {
	c := vsim.Make[chan Time](1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}
func After(d time.Duration) <-chan Time { return NewTimer(d).C }
func (t *Timer) Stop() bool {
	vsim.Y0()
	was := t.on
	if t.stop != nil {
		t.stop()
	}
	t.on = false
	if t.c != nil {
		vsim.Drain(t.c)
	}
	return was
}
func (t *Timer) Reset(d time.Duration) bool { was := t.Stop(); t.arm(d); return was }
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := vsim.Make[chan Time](1)
	t := &Timer{C: c, c: c, per: d}
	t.arm(d)
	return &Ticker{C: c, t: t}
}
func (t *Ticker) Stop()                 { t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) { t.t.Stop(); t.t.per = d; t.t.arm(d) }
func Tick(d time.Duration) <-chan Time  { return NewTicker(d).C }
