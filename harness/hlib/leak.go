package hlib

import "vsim"

// Leak repeats rounds of interactions and looks for what is left of them.
type Leak struct {
	W     *W
	Round func(n int) // starts interactions
	Idle  func()
	Flush func()       // some calls that push the last frames of the round out of buffers
	Roots func() []any // what holds the endpoints
	All   bool         // everything ends, so nothing may be left
}

// Run executes the rounds.
func (k *Leak) Run(rounds, calls int) {
	w := k.W
	w.Track = true
	k.Idle()
	base := len(vsim.Leaked())
	var sizes []int
	total := 0
	for r := 0; r < rounds; r++ {
		k.Round(calls)
		k.Idle()
		for n := 0; n < 12 && w.Pending(); n++ {
			w.Release()
			w.Resume()
			k.Idle()
		}
		w.Check()
		flush := len(w.Inters)
		k.Flush()
		k.Idle()
		w.Inters = w.Inters[:flush]
		left, ended := w.Leaks()
		if len(left) > 0 {
			Fail("C25", "retained", "%d thing(s) of ended interactions are still reachable: %v", len(left), left[0])
		}
		all := true
		for _, i := range w.Inters {
			all = all && (!i.Started || i.gone || i.Ended())
		}
		total += ended
		if !all {
			continue
		}
		if l := vsim.Leaked(); len(l) > base {
			Fail("C25", "goroutines", "all %d interactions have ended but %d goroutine(s) more than before are left: %v", len(w.Inters), len(l)-base, l)
		}
		sizes = append(sizes, DeepSize(append(k.Roots(), vsim.Globals...)...))
		vsim.Logf("reachable: %d bytes after %d interactions", sizes[len(sizes)-1], total)
		w.Drop()
	}
	grown := 0
	for i := 1; i < len(sizes); i++ {
		if sizes[i] > sizes[i-1] {
			grown++
		}
	}
	if len(sizes) >= 5 && grown == len(sizes)-1 {
		Fail("C25", "growing", "what the endpoints keep grows with every round of %d interactions, although all have ended: %v bytes", calls, sizes)
	}
}

// Drop forgets the interactions so far; all must have ended.
func (w *W) Drop() {
	w.Inters, w.kept = nil, nil
}
