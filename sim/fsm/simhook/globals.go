package simhook

import (
	"reflect"
	"strings"
	"unsafe"
)

// Globals registers package-level variables (by pointers to them); the build
// makes every instrumented package call it once it is initialised.
func Globals(ptrs ...interface{}) {
	for _, p := range ptrs {
		roots = append(roots, reflect.ValueOf(p).Elem())
	}
}

var (
	roots   []reflect.Value
	pristin *Memory
)

// Memory is what package-level variables held at some moment.
type Memory struct {
	undo []func()
	seen map[uintptr]bool
}

// NewProcess gives all package-level variables the values they have in a
// process that has just started. It must be called before anything runs, too.
func NewProcess() {
	if pristin == nil {
		pristin = Remember()
		return
	}
	pristin.Restore()
}

// Remember notes what the package-level variables hold, down to the maps,
// slices and structures they refer to.
func Remember() *Memory {
	m := &Memory{seen: map[uintptr]bool{}}
	for _, v := range roots {
		m.cell(v, 0)
	}
	return m
}

// Restore writes it back, in place.
func (m *Memory) Restore() {
	for _, f := range m.undo {
		f()
	}
}

func (m *Memory) cell(v reflect.Value, depth int) {
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	m.undo = append(m.undo, func() { v.Set(c) })
	m.deep(v, depth)
}

func ours(t reflect.Type) bool {
	if t.Kind() != reflect.Struct {
		return true
	}
	p := t.PkgPath()
	return p == "" || strings.Contains(p, "roy2220/plainkv") || strings.HasSuffix(p, "/simsync")
}

func flat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Struct, reflect.Array:
		return false
	}
	return true
}

func (m *Memory) visit(p uintptr) bool {
	if p == 0 || m.seen[p] {
		return false
	}
	m.seen[p] = true
	return true
}

func (m *Memory) deep(v reflect.Value, depth int) {
	if depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if ours(v.Type().Elem()) && m.visit(v.Pointer()) {
			m.cell(v.Elem(), depth+1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			m.deep(v.Elem(), depth+1)
		}
	case reflect.Struct:
		if !ours(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanAddr() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			m.deep(f, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len() && !flat(v.Type().Elem()); i++ {
			m.deep(v.Index(i), depth+1)
		}
	case reflect.Slice:
		if v.Len() == 0 || !v.CanInterface() || !m.visit(v.Pointer()) {
			return
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(c, v)
		at := v.Slice(0, v.Len())
		m.undo = append(m.undo, func() { reflect.Copy(at, c) })
		for i := 0; i < v.Len() && !flat(v.Type().Elem()); i++ {
			m.deep(v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() || !v.CanInterface() || !m.visit(v.Pointer()) {
			return
		}
		at := reflect.ValueOf(v.Interface())
		var ks, vs []reflect.Value
		for it := at.MapRange(); it.Next(); {
			ks, vs = append(ks, it.Key()), append(vs, it.Value())
			m.deep(it.Value(), depth+1)
		}
		m.undo = append(m.undo, func() {
			at.Clear()
			for i := range ks {
				at.SetMapIndex(ks[i], vs[i])
			}
		})
	}
}
