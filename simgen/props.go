package main

// universes is the number of guest copies that a world is built with.
var universes = map[string]int{"rsock": 0, "wasm": 4, "mesh": 6, "rx": 0, "comp": 0}

// props maps a property to the worlds of its check and their workers.
var props = map[string][]worldRun{
	"C01": {{"rsock", 8}},
	"C02": {{"rsock", 8}},
	"C03": {{"rsock", 8}},
	"C04": {{"rsock", 8}},
	"C05": {{"rsock", 8}},
	"C06": {{"rsock", 8}},
	"C07": {{"rsock", 8}},
	"C08": {{"rsock", 8}},
	"C09": {{"rsock", 8}},
	"C10": {{"rsock", 8}},
	"C11": {{"comp", 8}},
	"C12": {{"comp", 8}},
	"C13": {{"rx", 8}},
	"C14": {{"rx", 8}},
	"C15": {{"rx", 8}},
	"C16": {{"comp", 8}},
	"C17": {{"comp", 8}},
	"C18": {{"wasm", 8}},
	"C19": {{"wasm", 8}},
	"C20": {{"wasm", 8}},
	"C21": {{"mesh", 8}},
	"C22": {{"comp", 8}},
	"C23": {{"comp", 8}},
	"C24": {{"rsock", 8}},
	"C25": {{"rsock", 5}, {"wasm", 3}},
	"C26": {{"wasm", 8}},
	"C27": {{"wasm", 5}, {"mesh", 3}},
	"C28": {{"mesh", 8}},
	"C29": {{"rsock", 8}},
	"C30": {{"rsock", 8}},
}

// components tells what ran for real and what was replaced.
var components = map[string]map[string][]string{
	"rsock": {
		"real": {"transport/rsocket (server, client, transport)", "handler", "internal/frames", "internal/socket", "internal/stream", "internal/operations", "invoke", "payload", "proxy/streams as reached from these", "rx, rx/flux, rx/mono"},
		"stub": {"TCP: simulated in-memory byte streams with latency, segmentation, stalls, bounded windows, errors, resets", "Go scheduler, clocks, timers, channels, sync, sync/atomic and context: simulated", "application handlers and callers: generated by the harness"},
	},
	"wasm": {
		"real": {"transport/wasmrs/host", "transport/wasmrs/guest (one instrumented copy per guest)", "handler, operations, invoke, proxy, payload, internal/*", "rx, rx/flux, rx/mono"},
		"stub": {"wazero: a stand-in that runs guests as instrumented Go code with trap, stall and memory faults", "guest programs, host handlers and callers: generated by the harness", "Go scheduler, clocks, timers, channels, sync, sync/atomic and context: simulated"},
	},
	"mesh": {
		"real": {"transport/wasmrs/mesh", "transport/wasmrs/host", "transport/wasmrs/guest (one instrumented copy per module instance)", "handler, operations, invoke, proxy, payload, internal/*", "rx, rx/flux, rx/mono"},
		"stub": {"wazero: a stand-in that runs guests as instrumented Go code with trap, stall and memory faults", "file system: simulated files", "guest programs and callers: generated by the harness", "Go scheduler, clocks, timers, channels, sync, sync/atomic and context: simulated"},
	},
	"rx": {
		"real": {"rx", "rx/flux", "rx/mono", "rx/flow", "rx/await"},
		"stub": {"producers and subscribers: generated by the harness", "Go scheduler, clocks, timers, channels, sync, sync/atomic and context: simulated"},
	},
	"comp": {
		"real": {"internal/buffer", "internal/socket (stream ids, instances)", "invoke, proxy (handler registry, lookup)", "types/uuid"},
		"stub": {"concurrent users of the components: generated by the harness", "Go scheduler, clocks (with stalls and jumps), randomness, sync and sync/atomic: simulated"},
	},
}
