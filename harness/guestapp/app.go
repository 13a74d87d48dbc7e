package zguest

import (
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
	"vsim/nx"
	context "vsim/scontext"
	"vsim/wabridge"
)

func init() { wabridge.RegisterMain(zzUniverse, Main) }

// Main starts a program in this universe.
func Main(program string) {
	f := nx.Programs[program]
	if f == nil {
		panic("no such program: " + program)
	}
	f(&nx.Guest{
		Universe: zzUniverse,
		Caller:   Caller(context.Background(), guest.HostInvoker),
		Export:   Exports(),
	})
}
