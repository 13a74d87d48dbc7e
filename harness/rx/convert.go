package main

import (
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/zverif/hlib"
	"vsim"
)

// converted is what a conversion should deliver: items, then an ending. Items
// may be left out after the first when a flux becomes a mono.
type converted struct {
	what  string
	items []int
	end   string // "", "complete" or the text of an error; "some" is any error
}

// source makes a flux of up to three items or a mono, and converts it.
func convertedSource() (f flux.Flux[int], m mono.Mono[int], v mono.Void, c converted) {
	if vsim.Flip(0.4, "conv.mono") {
		m, c = someMono()
	} else {
		f, c = someFlux()
	}
	for n := 1 + vsim.Choose(3, "conv.times"); n > 0; n-- {
		switch {
		case m != nil:
			f, m = transform.MonoToFlux(m), nil
			c.what += " to flux"
		case vsim.Flip(0.4, "conv.void") && n == 1:
			v, f = transform.FluxToVoid(f), nil
			c.what += " to void"
			c.items = nil
			if c.end == "complete" {
				c.items = []int{0}
			}
		default:
			m, f = transform.FluxToMono(f), nil
			c.what += " to mono"
			if len(c.items) > 0 {
				c.items, c.end = c.items[:1], "complete"
			} else if c.end == "complete" {
				c.end = "some"
			}
		}
		if vsim.Flip(0.2, "conv.map") {
			add := func(n int) (int, error) { return n + level, nil }
			if f != nil {
				f = flux.Map(f, add)
			} else if m != nil {
				m = mono.Map(m, add)
			} else {
				continue
			}
			c.what += " mapped"
			c.items = append([]int(nil), c.items...)
			for k := range c.items {
				c.items[k] += level
			}
		}
	}
	return
}

func someMono() (mono.Mono[int], converted) {
	c := converted{what: "mono", items: []int{7}, end: "complete"}
	if vsim.Flip(0.3, "conv.fails") {
		c.items, c.end = nil, "conv"
	}
	signal := func(k mono.Sink[int]) {
		vsim.Event("source ends with %s", c.end)
		if c.items == nil {
			k.Error(errors.New("conv"))
		} else {
			k.Success(7)
		}
	}
	switch vsim.Choose(4, "conv.kind") {
	case 0:
		if c.items == nil {
			return mono.Error[int](errors.New("conv")), c
		}
		return mono.Just(7), c
	case 1:
		p := mono.NewProcessor[int]()
		when("conv.signal", func() { signal(p) })
		return p, c
	case 2:
		return mono.Create(signal), c
	}
	return mono.Create(func(k mono.Sink[int]) {
		when("conv.signal", func() { signal(k) })
	}), c
}

func someFlux() (flux.Flux[int], converted) {
	c := converted{what: "flux", end: []string{"complete", "complete", "conv", ""}[vsim.Choose(4, "conv.end")]}
	for n := vsim.Choose(4, "conv.items"); n > 0; n-- {
		c.items = append(c.items, 10+n)
	}
	items, end := c.items, c.end
	emit := func(k flux.Sink[int]) {
		for _, v := range items {
			vsim.Event("source item %d", v)
			k.Next(v)
		}
		vsim.Event("source ends with %q", end)
		switch end {
		case "complete":
			k.Complete()
		case "conv":
			k.Error(errors.New("conv"))
		}
	}
	switch vsim.Choose(5, "conv.kind") {
	case 0:
		if c.end == "complete" {
			return flux.FromSlice(items), c
		}
		if c.end == "conv" {
			c.items = nil
			return flux.Error[int](errors.New("conv")), c
		}
		fallthrough
	case 1:
		return flux.Create(emit), c
	case 2:
		p := flux.NewProcessor[int]()
		return flux.Create(func(k flux.Sink[int]) {
			p.Subscribe(flux.Subscribe[int]{OnNext: k.Next, OnComplete: k.Complete, OnError: k.Error})
			when("conv.emit", func() { emit(p) })
		}), c
	}
	return flux.Create(func(k flux.Sink[int]) {
		when("conv.emit", func() { emit(k) })
	}), c
}

// conversions: a flux that is made of a mono, or the other way round, ends
// like its source.
func conversions() {
	f, m, v, c := convertedSource()
	var items []int
	end, finals, notes, blocked := "", 0, 0, false
	var sig, noted rx.SignalType
	item := func(n int) {
		items = append(items, n)
		if end != "" {
			fail("item-after-end", "%s: item %d after the end", c.what, n)
		}
	}
	ended := func(s string) {
		vsim.Event("ended with %s", s)
		if end != "" {
			fail("end-twice", "%s: ended with %s after %s", c.what, s, end)
		}
		end = s
	}
	final := func(s rx.SignalType) { finals++; sig = s }
	note := func(s rx.SignalType) { notes++; noted = s }
	failed := func(err error) { ended(err.Error()) }
	block := vsim.Flip(0.2, "conv.block") && c.end != ""
	when("conv.subscribe", func() {
		switch {
		case f != nil:
			sub := flux.Subscribe[int]{OnNext: item, OnComplete: func() { ended("complete") }, OnError: failed, Finally: final}
			if block {
				err := f.(flux.Blockable[int]).Block(sub)
				blocked = true
				if end == "" || (err == nil) != (end == "complete") || err != nil && err.Error() != end {
					fail("block-early", "%s: Block returned %v, ended with %q", c.what, err, end)
				}
				return
			}
			f.Subscribe(sub)
		case m != nil:
			if block {
				n, err := m.(mono.Blockable[int]).Block()
				blocked = true
				if err != nil {
					failed(err)
				} else {
					item(n)
					ended("complete")
				}
				finals, sig = 1, rx.SignalComplete
				if err != nil {
					sig = rx.SignalError
				}
				return
			}
			m.Subscribe(mono.Subscribe[int]{OnSuccess: func(n int) { item(n); ended("complete") }, OnError: failed, Finally: final})
		default:
			if block {
				_, err := v.(mono.Blockable[struct{}]).Block()
				blocked = true
				if err != nil {
					failed(err)
				} else {
					item(0)
					ended("complete")
				}
				finals, sig = 1, rx.SignalComplete
				if err != nil {
					sig = rx.SignalError
				}
				return
			}
			v.Subscribe(mono.Subscribe[struct{}]{OnSuccess: func(struct{}) { item(0); ended("complete") }, OnError: failed, Finally: final})
		}
	})
	wantNotes := vsim.Choose(2, "conv.notes")
	if wantNotes > 0 {
		when("conv.notify", func() {
			switch {
			case f != nil:
				f.Notify(note)
			case m != nil:
				m.Notify(note)
			default:
				v.Notify(note)
			}
		})
	}
	idle()
	if block && !blocked {
		fail("block-hangs", "%s: Block does not return although the source has ended", c.what)
	}
	if fmt.Sprint(items) != fmt.Sprint(c.items) {
		fail("wrong-items", "%s: delivered %v instead of %v", c.what, items, c.items)
	}
	if c.end == "" {
		if end != "" || finals > 0 || notes > 0 {
			fail("end-invented", "%s: ended with %q although its source has not", c.what, end)
		}
		return
	}
	want := rx.SignalError
	if c.end == "complete" {
		want = rx.SignalComplete
	}
	switch {
	case end == "":
		fail("no-ending", "%s: does not end although its source has ended", c.what)
	case c.end == "some" && end == "complete", c.end != "some" && end != c.end:
		fail("wrong-outcome", "%s: ended with %q instead of %q", c.what, end, c.end)
	case finals != 1 || sig != want:
		fail("wrong-final", "%s: the final callback ran %d times, with the signal %v", c.what, finals, sig)
	case notes != wantNotes || notes > 0 && noted != want:
		fail("wrong-notify", "%s: the completion callback ran %d times, with the signal %v", c.what, notes, noted)
	}
}

func init() { hlib.Register("C13", "conversions", 3, conversions) }
