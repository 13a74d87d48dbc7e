package hlib

import (
	"reflect"
	"strings"

	"vsim"
)

// DeepSize adds up what can be reached from roots: the bytes of objects, and
// of the elements in use of slices and maps. What closures, channels and the
// simulator hold is not counted.
func DeepSize(roots ...any) int {
	w := walker{seen: map[seenKey]bool{}}
	for _, r := range roots {
		if r != nil {
			w.walk(reflect.ValueOf(r))
		}
	}
	return w.n
}

type seenKey struct {
	p uintptr
	t reflect.Type
}

type walker struct {
	seen map[seenKey]bool
	n    int
}

func (w *walker) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if p := v.Type().Elem().PkgPath(); p == "vsim" || strings.HasSuffix(p, "zverif/hlib") || p == "main" {
			return
		}
		k := seenKey{v.Pointer(), v.Type()}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		w.n += int(v.Type().Elem().Size())
		w.walk(v.Elem())
	case reflect.Interface:
		if !v.IsNil() {
			w.walk(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i))
		}
	case reflect.Slice:
		if v.IsNil() || v.Len() == 0 {
			return
		}
		k := seenKey{v.Pointer(), v.Type()}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		w.n += v.Len() * int(v.Type().Elem().Size())
		if flat(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Array:
		if flat(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := seenKey{v.Pointer(), v.Type()}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		w.n += v.Len() * int(v.Type().Key().Size()+v.Type().Elem().Size())
		for it := v.MapRange(); it.Next(); {
			w.walk(it.Key())
			w.walk(it.Value())
		}
	case reflect.String:
		w.n += v.Len()
	}
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64:
		return true
	}
	return false
}

// Leaks tells what of the ended interactions is still reachable.
func (w *W) Leaks() (out []string, ended int) {
	for _, i := range w.Inters {
		if i.Started && !i.gone && i.Ended() {
			w.Forget(i)
		}
	}
	vsim.GC()
	for _, i := range w.Inters {
		if !i.Started || i.gone || !i.Ended() {
			continue
		}
		ended++
		for _, s := range i.Alive() {
			out = append(out, i.String()+": "+s)
		}
	}
	return
}
