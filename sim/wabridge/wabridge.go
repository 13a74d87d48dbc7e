// Package wabridge connects simulated guest universes (copies of the guest-side
// packages) with the simulated WebAssembly runtime.
package wabridge

import "fmt"

// Exports of each universe, by wasm export name.
var Exports = map[int]map[string]any{}

// Mains holds each universe's program entry.
var Mains = map[int]func(program string){}

// ImportFn is installed by the simulated runtime.
var ImportFn func(u int, name string, args []uint64)

// Register adds exports.
func Register(u int, m map[string]any) {
	if Exports[u] == nil {
		Exports[u] = map[string]any{}
	}
	for k, v := range m {
		Exports[u][k] = v
	}
}

// RegisterMain sets the program entry.
func RegisterMain(u int, f func(program string)) { Mains[u] = f }

// Import is called by guest code for an imported function.
func Import(u int, name string, args ...uint64) {
	if name == "llvm.trap" {
		panic("wasm trap: unreachable")
	}
	if ImportFn == nil {
		panic(fmt.Sprintf("guest import %s called outside a runtime", name))
	}
	ImportFn(u, name, args)
}
