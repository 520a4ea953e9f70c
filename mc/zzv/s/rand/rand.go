// Package rand replaces math/rand in the instrumented tracker: values are choices of the explorer or a
// deterministic sequence.
package rand

import (
	real "math/rand"

	"github.com/crimist/trakx/zzv/vs"
)

// Explore makes bounded draws (Intn and friends) scenario choices between the extremes and the middle.
var Explore bool

var ctr uint64

func init() { vs.OnReset(func() { ctr = 0 }) }

// Rare, if not nil, is drawn next.
var Rare *uint64

func next() uint64 {
	if Rare != nil {
		x := *Rare
		Rare = nil
		return x
	}
	ctr++
	z := ctr * 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func bounded(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if Explore {
		switch {
		case n == 1:
			return 0
		case n == 2:
			return int64(vs.Choose(2))
		default:
			return []int64{0, n - 1, n / 2}[vs.Choose(3)]
		}
	}
	return int64(next() % uint64(n))
}

func Seed(int64)           {}
func Int63() int64         { return int64(next() >> 1) }
func Uint32() uint32       { return uint32(next() >> 32) }
func Uint64() uint64       { return next() }
func Int31() int32         { return int32(next() >> 33) }
func Int() int             { return int(next() >> 1) }
func Int63n(n int64) int64 { return bounded(n) }
func Int31n(n int32) int32 { return int32(bounded(int64(n))) }
func Intn(n int) int       { return int(bounded(int64(n))) }
func Float64() float64     { return float64(next()>>11) / (1 << 53) }
func Float32() float32     { return float32(Float64()) }
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(next())
	}
	return len(p), nil
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {}

type src struct{}

func (src) Int63() int64   { return Int63() }
func (src) Seed(int64)     {}
func (src) Uint64() uint64 { return next() }

func NewSource(int64) real.Source { return src{} }
