// Package wazero is a simulated WebAssembly runtime with the API surface the
// repository uses. A "module" is a guest program run in a universe: a private
// copy of the repository's guest-side packages.
package wazero

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"unsafe"

	"github.com/tetratelabs/wazero/api"
	"vsim"
	"vsim/wabridge"
)

type RuntimeConfig interface {
	WithCoreFeatures(api.CoreFeatures) RuntimeConfig
	WithMemoryLimitPages(memoryLimitPages uint32) RuntimeConfig
	WithMemoryCapacityFromMax(memoryCapacityFromMax bool) RuntimeConfig
	WithDebugInfoEnabled(bool) RuntimeConfig
	WithCloseOnContextDone(bool) RuntimeConfig
}

type rtConfig struct{}

func (c rtConfig) WithCoreFeatures(api.CoreFeatures) RuntimeConfig { return c }
func (c rtConfig) WithMemoryLimitPages(uint32) RuntimeConfig       { return c }
func (c rtConfig) WithMemoryCapacityFromMax(bool) RuntimeConfig    { return c }
func (c rtConfig) WithDebugInfoEnabled(bool) RuntimeConfig         { return c }
func (c rtConfig) WithCloseOnContextDone(bool) RuntimeConfig       { return c }
func NewRuntimeConfig() RuntimeConfig                              { return rtConfig{} }
func NewRuntimeConfigInterpreter() RuntimeConfig                   { return rtConfig{} }
func NewRuntimeConfigCompiler() RuntimeConfig                      { return rtConfig{} }

type ModuleConfig interface {
	WithArgs(...string) ModuleConfig
	WithEnv(key, value string) ModuleConfig
	WithName(string) ModuleConfig
	WithStartFunctions(...string) ModuleConfig
	WithStderr(io.Writer) ModuleConfig
	WithStdin(io.Reader) ModuleConfig
	WithStdout(io.Writer) ModuleConfig
	WithSysWalltime() ModuleConfig
	WithSysNanotime() ModuleConfig
	WithSysNanosleep() ModuleConfig
	WithRandSource(io.Reader) ModuleConfig
}

type modConfig struct {
	name  string
	start []string
}

func (c modConfig) WithArgs(...string) ModuleConfig             { return c }
func (c modConfig) WithEnv(k, v string) ModuleConfig            { return c }
func (c modConfig) WithName(n string) ModuleConfig              { c.name = n; return c }
func (c modConfig) WithStartFunctions(s ...string) ModuleConfig { c.start = s; return c }
func (c modConfig) WithStderr(io.Writer) ModuleConfig           { return c }
func (c modConfig) WithStdin(io.Reader) ModuleConfig            { return c }
func (c modConfig) WithStdout(io.Writer) ModuleConfig           { return c }
func (c modConfig) WithSysWalltime() ModuleConfig               { return c }
func (c modConfig) WithSysNanotime() ModuleConfig               { return c }
func (c modConfig) WithSysNanosleep() ModuleConfig              { return c }
func (c modConfig) WithRandSource(io.Reader) ModuleConfig       { return c }
func NewModuleConfig() ModuleConfig                             { return modConfig{start: []string{"_start"}} }

type CompiledModule interface {
	Name() string
	Close(context.Context) error
}

type compiled struct{ program string }

func (c *compiled) Name() string                { return c.program }
func (c *compiled) Close(context.Context) error { return nil }

type Runtime interface {
	Instantiate(ctx context.Context, source []byte) (api.Module, error)
	NewHostModuleBuilder(moduleName string) HostModuleBuilder
	CompileModule(ctx context.Context, binary []byte) (CompiledModule, error)
	InstantiateModule(ctx context.Context, compiled CompiledModule, config ModuleConfig) (api.Module, error)
	CloseWithExitCode(ctx context.Context, exitCode uint32) error
	Module(moduleName string) api.Module
	api.Closer
}

type HostFunctionBuilder interface {
	WithGoFunction(fn api.GoFunction, params, results []api.ValueType) HostFunctionBuilder
	WithGoModuleFunction(fn api.GoModuleFunction, params, results []api.ValueType) HostFunctionBuilder
	WithName(name string) HostFunctionBuilder
	WithParameterNames(names ...string) HostFunctionBuilder
	Export(name string) HostModuleBuilder
}

type HostModuleBuilder interface {
	NewFunctionBuilder() HostFunctionBuilder
	Compile(context.Context) (CompiledModule, error)
	Instantiate(context.Context) (api.Module, error)
}

type hostFn struct {
	fn  api.GoFunction
	mfn api.GoModuleFunction
}

type rt struct {
	imports map[string]map[string]hostFn
	mods    map[string]*Module
	closed  bool
	all     []*Module
}

func NewRuntime(ctx context.Context) Runtime { return NewRuntimeWithConfig(ctx, nil) }
func NewRuntimeWithConfig(ctx context.Context, c RuntimeConfig) Runtime {
	vsim.Y0()
	return &rt{imports: map[string]map[string]hostFn{}, mods: map[string]*Module{}}
}

func (r *rt) Instantiate(ctx context.Context, source []byte) (api.Module, error) {
	c, err := r.CompileModule(ctx, source)
	if err != nil {
		return nil, err
	}
	return r.InstantiateModule(ctx, c, NewModuleConfig())
}

type hmb struct {
	r    *rt
	name string
	fns  map[string]hostFn
}
type hfb struct {
	b *hmb
	f hostFn
}

func (r *rt) NewHostModuleBuilder(name string) HostModuleBuilder {
	return &hmb{r: r, name: name, fns: map[string]hostFn{}}
}
func (b *hmb) NewFunctionBuilder() HostFunctionBuilder { return &hfb{b: b} }
func (b *hmb) Compile(context.Context) (CompiledModule, error) {
	return &compiled{program: b.name}, nil
}
func (b *hmb) Instantiate(ctx context.Context) (api.Module, error) {
	b.r.imports[b.name] = b.fns
	return &Module{r: b.r, name: b.name, u: -1}, nil
}
func (f *hfb) WithGoFunction(fn api.GoFunction, p, r []api.ValueType) HostFunctionBuilder {
	f.f.fn = fn
	return f
}
func (f *hfb) WithGoModuleFunction(fn api.GoModuleFunction, p, r []api.ValueType) HostFunctionBuilder {
	f.f.mfn = fn
	return f
}
func (f *hfb) WithName(string) HostFunctionBuilder              { return f }
func (f *hfb) WithParameterNames(...string) HostFunctionBuilder { return f }
func (f *hfb) Export(name string) HostModuleBuilder             { f.b.fns[name] = f.f; return f.b }

func (r *rt) CompileModule(ctx context.Context, b []byte) (CompiledModule, error) {
	vsim.Y0()
	if len(b) < 5 || string(b[:5]) != "\x00asm:" {
		return nil, errors.New("invalid magic number")
	}
	return &compiled{program: string(b[5:])}, nil
}

// State of the simulated runtime, reset for every run.
var (
	next    int
	current map[int]*Module
	// Limit is the number of universes available.
	Limit = 1
	// OnReenter is called when two goroutines are inside one guest at once.
	OnReenter func(m *Module)
	// TrapAt makes a guest trap: called at each guest entry.
	TrapAt func(m *Module, fn string) bool
	// TrapIn is called at each call from the guest to the host.
	TrapIn func(m *Module, fn string) bool
	// Raw holds programs that are not the repository's guest side: what they
	// export. They need no universe.
	Raw map[string]func(m *Module) map[string]any
	raw []*Module
)

func init() {
	vsim.RegisterReset(func() {
		next, current, OnReenter, TrapAt, TrapIn = 0, map[int]*Module{}, nil, nil, nil
		Raw, raw = map[string]func(m *Module) map[string]any{}, nil
		wabridge.ImportFn = guestImport
	})
}

// Modules lists the guests of this run.
func Modules() []*Module {
	var l []*Module
	for u := 0; u < next; u++ {
		if m := current[u]; m != nil {
			l = append(l, m)
		}
	}
	return l
}

func (r *rt) InstantiateModule(ctx context.Context, c CompiledModule, config ModuleConfig) (api.Module, error) {
	vsim.Y0()
	cc := c.(*compiled)
	mc, _ := config.(modConfig)
	if Raw[cc.program] == nil && next >= Limit {
		return nil, errors.New("vsim: no universe left")
	}
	if r.closed {
		return nil, errors.New("runtime closed")
	}
	if old := r.mods[mc.name]; old != nil && !old.closed {
		return nil, fmt.Errorf("module[%s] has already been instantiated", mc.name)
	}
	m := &Module{r: r, name: mc.name, u: next, Program: cc.program, nextAddr: 1 << 16}
	if f := Raw[cc.program]; f != nil {
		m.u = -2 - len(raw)
		m.exports = f(m)
		raw = append(raw, m)
	} else {
		next++
		current[m.u] = m
	}
	r.mods[mc.name] = m
	r.all = append(r.all, m)
	for _, s := range mc.start {
		if s == "_start" && m.exports == nil {
			main := wabridge.Mains[m.u]
			if err := m.guarded(ctx, s, func() { main(cc.program) }); err != nil {
				m.closed = true
				return nil, err
			}
			continue
		}
		if f := m.ExportedFunction(s); f != nil {
			if _, err := f.Call(ctx); err != nil {
				m.closed = true
				return nil, err
			}
		}
	}
	return m, nil
}
func (r *rt) Module(n string) api.Module {
	if m := r.mods[n]; m != nil {
		return m
	}
	return nil
}
func (r *rt) CloseWithExitCode(ctx context.Context, c uint32) error { return r.Close(ctx) }
func (r *rt) Close(ctx context.Context) error {
	r.closed = true
	for _, m := range r.all {
		_ = m.Close(ctx)
	}
	return nil
}

type region struct {
	base uint32
	data []byte
}

// Module is an instantiated guest.
type Module struct {
	r        *rt
	name     string
	u        int
	Program  string
	closed   bool
	regions  []region
	nextAddr uint32
	inside   int // goroutine inside the guest
	depth    int
	ctxs     []context.Context
	params   []uint64
	Entries  int
	Traps    int
	exports  map[string]any // of a raw module
}

// RawModules lists the raw modules of this run.
func RawModules() []*Module { return raw }

// Alloc makes n bytes of the memory of a raw module.
func (m *Module) Alloc(n int) (uint32, []byte) {
	b := make([]byte, n)
	base := m.nextAddr
	m.regions = append(m.regions, region{base, b})
	m.nextAddr += uint32(n+4096) &^ 15
	return base, b
}

// Import calls a host function from a raw module.
func (m *Module) Import(name string, args ...uint32) {
	hf, ok := m.r.imports["wasmrs"][name]
	if !ok {
		panic("wasm: function wasmrs." + name + " not exported by the host")
	}
	st := make([]uint64, max2(len(args), 1))
	for i, a := range args {
		st[i] = uint64(a)
	}
	ctx := m.ctxs[len(m.ctxs)-1]
	if hf.mfn != nil {
		hf.mfn.Call(ctx, m, st)
		return
	}
	hf.fn.Call(ctx, st)
}

func (m *Module) String() string { return "module[" + m.name + "]" }
func (m *Module) Name() string   { return m.name }

// Universe is the number of the universe this guest runs in.
func (m *Module) Universe() int { return m.u }

// Closed tells whether the module was closed.
func (m *Module) Closed() bool                                                   { return m.closed }
func (m *Module) Memory() api.Memory                                             { return &memory{m} }
func (m *Module) ExportedFunctionDefinitions() map[string]api.FunctionDefinition { return nil }
func (m *Module) ExportedMemory(name string) api.Memory                          { return &memory{m} }
func (m *Module) ExportedMemoryDefinitions() map[string]api.MemoryDefinition     { return nil }
func (m *Module) ExportedGlobal(name string) api.Global                          { return nil }
func (m *Module) CloseWithExitCode(ctx context.Context, c uint32) error          { return m.Close(ctx) }
func (m *Module) Close(ctx context.Context) error                                { vsim.Y0(); m.closed = true; return nil }
func (m *Module) ExportedFunction(name string) api.Function {
	if m.u == -1 {
		return nil
	}
	f, ok := wabridge.Exports[m.u][name]
	if m.exports != nil {
		f, ok = m.exports[name]
	}
	if !ok {
		return nil
	}
	return &function{m: m, name: name, fn: reflect.ValueOf(f)}
}

type function struct {
	m    *Module
	name string
	fn   reflect.Value
}

func (f *function) Definition() api.FunctionDefinition { return nil }
func (f *function) Call(ctx context.Context, params ...uint64) (res []uint64, err error) {
	vsim.Y0()
	t := f.fn.Type()
	if t.NumIn() != len(params) {
		return nil, fmt.Errorf("expected %d params, but passed %d", t.NumIn(), len(params))
	}
	if f.m.closed {
		return nil, errors.New("module closed with exit_code(0)")
	}
	args := make([]reflect.Value, len(params))
	for i, p := range params {
		args[i] = reflect.ValueOf(p).Convert(t.In(i))
	}
	f.m.params = params
	err = f.m.guarded(ctx, f.name, func() {
		if TrapAt != nil && TrapAt(f.m, f.name) {
			panic("wasm trap: injected at entry")
		}
		for _, o := range f.fn.Call(args) {
			var v uint64
			switch o.Kind() {
			case reflect.Bool:
				if o.Bool() {
					v = 1
				}
			case reflect.Int, reflect.Int32, reflect.Int64:
				v = uint64(o.Int())
			default:
				v = o.Uint()
			}
			res = append(res, v)
		}
	})
	return
}

// guarded runs guest code; a panic becomes a trap error.
func (m *Module) guarded(ctx context.Context, name string, f func()) (err error) {
	self := vsim.Self() + 1
	if m.depth > 0 && m.inside != self {
		if OnReenter != nil {
			OnReenter(m)
		}
	}
	saved := m.inside
	m.inside = self
	m.depth++
	m.Entries++
	m.ctxs = append(m.ctxs, ctx)
	defer func() {
		m.depth--
		m.inside = saved
		if len(m.ctxs) > 0 {
			m.ctxs[len(m.ctxs)-1] = nil
			m.ctxs = m.ctxs[:len(m.ctxs)-1]
		}
		if vsim.Killing() {
			return
		}
		if r := recover(); r != nil {
			m.Traps++
			vsim.Event("trap u%d %s: %v", m.u, name, r)
			vsim.Count("guest-trap")
			err = fmt.Errorf("%v (recovered by wazero)\nwasm stack trace:\n\t%s", r, name)
		}
	}()
	f()
	return nil
}

func guestImport(u int, name string, args []uint64) {
	m := current[u]
	if m == nil || len(m.ctxs) == 0 {
		panic("vsim: guest import without a running guest: " + name)
	}
	if TrapIn != nil && TrapIn(m, name) {
		panic("wasm trap: injected in host call")
	}
	switch name {
	case "__init_buffers":
		sz := [2]int{16 * 1024, 16 * 1024}
		for i := 0; i < 2 && i < len(m.params); i++ {
			sz[i] = int(m.params[i])
		}
		for i := range args {
			args[i] = uint64(m.addRegion(args[i], sz[i]))
		}
	case "__op_list":
		args[0] = uint64(m.addRegion(args[0], int(uint32(args[1]))))
	}
	hf, ok := m.r.imports["wasmrs"][name]
	if !ok {
		panic("wasm: function wasmrs." + name + " not exported by the host")
	}
	st := make([]uint64, max2(len(args), 1))
	copy(st, args)
	for i := range st { // the guest passes 32-bit values
		st[i] = uint64(uint32(st[i]))
	}
	ctx := m.ctxs[len(m.ctxs)-1]
	if hf.mfn != nil {
		hf.mfn.Call(ctx, m, st)
		return
	}
	hf.fn.Call(ctx, st)
}

func max2(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (m *Module) addRegion(addr uint64, size int) uint32 {
	if addr == 0 || size == 0 {
		return 0
	}
	//nolint
	b := unsafe.Slice((*byte)(ptrOf(addr)), size)
	base := m.nextAddr
	m.regions = append(m.regions, region{base, b})
	m.nextAddr += uint32(size+4096) &^ 15
	return base
}

func ptrOf(a uint64) unsafe.Pointer {
	u := uintptr(a)
	return *(*unsafe.Pointer)(unsafe.Pointer(&u))
}

type memory struct{ m *Module }

func (mem *memory) find(off, n uint32) []byte {
	for _, r := range mem.m.regions {
		if off >= r.base && uint64(off) <= uint64(r.base)+uint64(len(r.data)) {
			i := off - r.base
			if uint64(i)+uint64(n) <= uint64(len(r.data)) {
				return r.data[i : i+n : i+n]
			}
			// past the buffer lies other guest memory
			if uint64(off)+uint64(n) > 1<<26 {
				return nil
			}
			b := make([]byte, n)
			for k := range b {
				b[k] = 0xAA
			}
			copy(b, r.data[i:])
			return b
		}
	}
	return nil
}

func (mem *memory) Definition() api.MemoryDefinition { return nil }
func (mem *memory) Size() uint32                     { return mem.m.nextAddr }
func (mem *memory) Grow(d uint32) (uint32, bool)     { return 0, false }
func (mem *memory) Read(off, n uint32) ([]byte, bool) {
	if n == 0 {
		return []byte{}, true
	}
	b := mem.find(off, n)
	return b, b != nil
}
func (mem *memory) Write(off uint32, v []byte) bool {
	b := mem.find(off, uint32(len(v)))
	copy(b, v)
	return b != nil
}
func (mem *memory) WriteString(off uint32, v string) bool { return mem.Write(off, []byte(v)) }
func (mem *memory) ReadByte(off uint32) (byte, bool) {
	b := mem.find(off, 1)
	if b == nil {
		return 0, false
	}
	return b[0], true
}
func (mem *memory) WriteByte(off uint32, v byte) bool { return mem.Write(off, []byte{v}) }
func (mem *memory) rd(off, n uint32) (v uint64, ok bool) {
	b := mem.find(off, n)
	for i := len(b) - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v, b != nil
}
func (mem *memory) wr(off, n uint32, v uint64) bool {
	var b [8]byte
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	return mem.Write(off, b[:n])
}
func (mem *memory) ReadUint16Le(off uint32) (uint16, bool) {
	v, ok := mem.rd(off, 2)
	return uint16(v), ok
}
func (mem *memory) ReadUint32Le(off uint32) (uint32, bool) {
	v, ok := mem.rd(off, 4)
	return uint32(v), ok
}
func (mem *memory) ReadUint64Le(off uint32) (uint64, bool)    { return mem.rd(off, 8) }
func (mem *memory) ReadFloat32Le(off uint32) (float32, bool)  { return 0, false }
func (mem *memory) ReadFloat64Le(off uint32) (float64, bool)  { return 0, false }
func (mem *memory) WriteUint16Le(off uint32, v uint16) bool   { return mem.wr(off, 2, uint64(v)) }
func (mem *memory) WriteUint32Le(off, v uint32) bool          { return mem.wr(off, 4, uint64(v)) }
func (mem *memory) WriteUint64Le(off uint32, v uint64) bool   { return mem.wr(off, 8, v) }
func (mem *memory) WriteFloat32Le(off uint32, v float32) bool { return false }
func (mem *memory) WriteFloat64Le(off uint32, v float64) bool { return false }
