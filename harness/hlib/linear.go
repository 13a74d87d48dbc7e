package hlib

import "fmt"

// Call is an operation of a concurrent history.
type Call struct {
	Name     string
	Arg      int
	Out      int
	OK       bool
	From, To int // logical times of invocation and response; To 0: pending
	G        int
}

func (c *Call) String() string {
	return fmt.Sprintf("g%d %s(%d)=%d,%v@%d-%d", c.G, c.Name, c.Arg, c.Out, c.OK, c.From, c.To)
}

// Clock orders the invocations and responses of a history.
type Clock struct{ t int }

// Tick returns the next logical time.
func (k *Clock) Tick() int { k.t++; return k.t }

// Linearizable tells whether the history has an order that the model explains:
// Wing and Gong's search with memory. Pending operations may have taken effect
// or not. steps limits the search; ok is true when the limit is hit.
func Linearizable[S comparable](h []*Call, init S, apply func(S, *Call) (S, bool), steps int) (ok, decided bool) {
	if len(h) > 60 {
		panic("history too long")
	}
	type node struct {
		done uint64
		s    S
	}
	seen := map[node]bool{}
	full := uint64(0)
	for i, c := range h {
		if c.To != 0 {
			full |= 1 << i
		}
	}
	n := 0
	var search func(done uint64, s S) bool
	search = func(done uint64, s S) bool {
		if done&full == full {
			return true
		}
		k := node{done, s}
		if seen[k] || n > steps {
			return n > steps
		}
		seen[k] = true
		n++
		// an operation can come next if no other one had returned before it began
		first := int(^uint(0) >> 1)
		for i, c := range h {
			if done>>i&1 == 0 && c.To != 0 && c.To < first {
				first = c.To
			}
		}
		for i, c := range h {
			if done>>i&1 != 0 || c.From > first {
				continue
			}
			if t, fine := apply(s, c); fine && search(done|1<<i, t) {
				return true
			}
		}
		return false
	}
	ok = search(0, init)
	return ok, n <= steps
}
