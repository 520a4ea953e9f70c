//go:build go1.22

package vs

import (
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// Package-level variables of the tracker. What a process finds in them when it starts is recorded before the
// first execution and put back before every execution, and when a scenario starts the tracker again: nothing
// is carried from one simulated process to the next.

type global struct {
	name string
	ptr  reflect.Value
}

type memory struct {
	at  unsafe.Pointer
	was reflect.Value // *T, a copy
}

type table struct {
	name string
	m    reflect.Value
	k, v []reflect.Value
}

var (
	globals  []global
	recorded bool
	mems     map[string][]memory
	tables   []table
	pkgs     []string
)

// Global registers a package-level variable (the instrumentation calls it for each).
func Global(name string, ptr any) {
	globals = append(globals, global{name, reflect.ValueOf(ptr)})
}

func ours(t reflect.Type) bool {
	p := t.PkgPath()
	return p == "" && t.Kind() != reflect.Struct || strings.Contains(p, "crimist/trakx") || p == "" && t.Name() == ""
}

func record() {
	recorded = true
	mems = map[string][]memory{}
	type seenKey struct {
		p unsafe.Pointer
		t reflect.Type
	}
	seen := map[seenKey]bool{}
	var walk func(pkg string, v reflect.Value)
	object := func(pkg string, p reflect.Value) { // p is a non-nil pointer
		k := seenKey{p.UnsafePointer(), p.Type()}
		if seen[k] || p.Type().Elem().Size() == 0 {
			return
		}
		seen[k] = true
		t := p.Type().Elem()
		q := reflect.NewAt(t, p.UnsafePointer())
		c := reflect.New(t)
		c.Elem().Set(q.Elem())
		if mems[pkg] == nil {
			pkgs = append(pkgs, pkg)
		}
		mems[pkg] = append(mems[pkg], memory{p.UnsafePointer(), c})
		walk(pkg, q.Elem())
	}
	walk = func(pkg string, v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() && ours(v.Type().Elem()) {
				object(pkg, v)
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(pkg, v.Elem())
			}
		case reflect.Struct:
			if !ours(v.Type()) {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(pkg, v.Field(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(pkg, v.Index(i))
			}
		case reflect.Slice:
			if v.Len() > 0 && v.Type().Elem().Size() > 0 {
				object(pkg, reflect.NewAt(reflect.ArrayOf(v.Len(), v.Type().Elem()), v.UnsafePointer()))
			}
		case reflect.Map:
			k := seenKey{v.UnsafePointer(), v.Type()}
			if v.IsNil() || seen[k] {
				return
			}
			seen[k] = true
			// reached through an unexported field: take a copy that may be used
			b := reflect.New(v.Type())
			*(*unsafe.Pointer)(b.UnsafePointer()) = v.UnsafePointer()
			m := b.Elem()
			t := table{name: pkg, m: m}
			for _, key := range m.MapKeys() {
				val := m.MapIndex(key)
				t.k, t.v = append(t.k, key), append(t.v, val)
				walk(pkg, val)
			}
			tables = append(tables, t)
		}
	}
	for _, g := range globals {
		pkg := g.name[:strings.LastIndex(g.name, ".")]
		object(pkg, g.ptr)
	}
	sort.Strings(pkgs)
}

// RestoreGlobals puts back what the variables held, except those of the packages whose path ends in one of keep.
// The race build (which looks for races and nothing else) does without.
func RestoreGlobals(keep ...string) {
	if RaceEnabled {
		return
	}
	if !recorded {
		record()
		return
	}
	kept := func(pkg string) bool {
		for _, k := range keep {
			if strings.HasSuffix(pkg, k) {
				return true
			}
		}
		return false
	}
	for _, p := range pkgs {
		if !kept(p) {
			for i := range mems[p] {
				m := &mems[p][i]
				reflect.NewAt(m.was.Type().Elem(), m.at).Elem().Set(m.was.Elem())
			}
		}
	}
	for i := range tables {
		if t := &tables[i]; !kept(t.name) {
			t.restore()
		}
	}
}

func (t *table) restore() {
	same := t.m.Len() == len(t.k)
	for i := 0; same && i < len(t.k); i++ {
		v := t.m.MapIndex(t.k[i])
		same = v.IsValid() && v.Comparable() && t.v[i].Comparable() && v.Equal(t.v[i])
	}
	if same {
		return
	}
	t.m.Clear()
	for i := range t.k {
		t.m.SetMapIndex(t.k[i], t.v[i])
	}
}
