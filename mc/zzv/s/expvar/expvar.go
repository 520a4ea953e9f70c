// Package expvar replaces the standard one in the instrumented tracker: a registry that is emptied before
// every execution.
package expvar

import (
	"fmt"
	"math"
	"net/http"
	"sort"
	"strconv"

	"github.com/crimist/trakx/zzv/s/atomic"
	"github.com/crimist/trakx/zzv/vs"
)

type Var interface{ String() string }

type KeyValue struct {
	Key   string
	Value Var
}

var (
	names []string
	vars  []Var
)

func init() { vs.OnReset(func() { names, vars = nil, nil }) }

type Int struct{ i atomic.Int64 }

func (v *Int) Value() int64   { return v.i.Load() }
func (v *Int) String() string { return strconv.FormatInt(v.i.Load(), 10) }
func (v *Int) Add(d int64)    { v.i.Add(d) }
func (v *Int) Set(x int64)    { v.i.Store(x) }

type Float struct{ f atomic.Uint64 }

func (v *Float) Value() float64 { return math.Float64frombits(v.f.Load()) }
func (v *Float) String() string { return strconv.FormatFloat(v.Value(), 'g', -1, 64) }
func (v *Float) Set(x float64)  { v.f.Store(math.Float64bits(x)) }
func (v *Float) Add(d float64)  { v.Set(v.Value() + d) }

type String struct{ s atomic.Value }

func (v *String) Value() string  { s, _ := v.s.Load().(string); return s }
func (v *String) String() string { return strconv.Quote(v.Value()) }
func (v *String) Set(x string)   { v.s.Store(x) }

type Func func() any

func (f Func) Value() any     { return f() }
func (f Func) String() string { return fmt.Sprintf("%v", f()) }

func Publish(name string, v Var) {
	for _, n := range names {
		if n == name {
			panic("Reuse of exported var name: " + name)
		}
	}
	names = append(names, name)
	vars = append(vars, v)
}
func NewInt(name string) *Int {
	v := new(Int)
	Publish(name, v)
	return v
}
func NewFloat(name string) *Float {
	v := new(Float)
	Publish(name, v)
	return v
}
func NewString(name string) *String {
	v := new(String)
	Publish(name, v)
	return v
}
func Get(name string) Var {
	for i, n := range names {
		if n == name {
			return vars[i]
		}
	}
	return nil
}
func Do(f func(KeyValue)) {
	ns := append([]string(nil), names...)
	sort.Strings(ns)
	for _, n := range ns {
		f(KeyValue{n, Get(n)})
	}
}

// Map is expvar.Map, reduced.
type Map struct {
	k []string
	v []Var
}

func NewMap(name string) *Map {
	m := new(Map)
	Publish(name, m)
	return m
}
func (m *Map) Init() *Map { m.k, m.v = nil, nil; return m }
func (m *Map) Get(k string) Var {
	for i, x := range m.k {
		if x == k {
			return m.v[i]
		}
	}
	return nil
}
func (m *Map) Set(k string, v Var) {
	for i, x := range m.k {
		if x == k {
			m.v[i] = v
			return
		}
	}
	m.k = append(m.k, k)
	m.v = append(m.v, v)
}
func (m *Map) Add(k string, d int64) {
	v, ok := m.Get(k).(*Int)
	if !ok {
		v = new(Int)
		m.Set(k, v)
	}
	v.Add(d)
}
func (m *Map) AddFloat(k string, d float64) {
	v, ok := m.Get(k).(*Float)
	if !ok {
		v = new(Float)
		m.Set(k, v)
	}
	v.Add(d)
}
func (m *Map) Delete(k string) {
	for i, x := range m.k {
		if x == k {
			m.k = append(m.k[:i:i], m.k[i+1:]...)
			m.v = append(m.v[:i:i], m.v[i+1:]...)
			return
		}
	}
}
func (m *Map) Do(f func(KeyValue)) {
	for i := range m.k {
		f(KeyValue{m.k[i], m.v[i]})
	}
}
func (m *Map) String() string {
	s := "{"
	for i := range m.k {
		if i > 0 {
			s += ", "
		}
		s += strconv.Quote(m.k[i]) + ": " + m.v[i].String()
	}
	return s + "}"
}

// SetHeader is how the handler touches the response header: done in instrumented code so that the race
// detector sees it.
func handler(w http.ResponseWriter, r *http.Request) {
	w.Header().Set("Content-Type", "application/json; charset=utf-8")
	fmt.Fprintf(w, "{\n")
	first := true
	Do(func(kv KeyValue) {
		if !first {
			fmt.Fprintf(w, ",\n")
		}
		first = false
		fmt.Fprintf(w, "%q: %s", kv.Key, kv.Value)
	})
	fmt.Fprintf(w, "\n}\n")
}

func Handler() http.Handler { return http.HandlerFunc(handler) }

// Forget empties the registry: the process that published is gone.
func Forget() { names, vars = nil, nil }
