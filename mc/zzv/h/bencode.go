//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/crimist/trakx/bencoding"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/zzv/vs"
)

// ---- C29 ----

// bval is a decoded or expected value: string, *big.Int, []bval or bdict.
type bval any
type bkv struct {
	K string
	V bval
}
type bdict struct {
	es    []bkv
	order bool // the order of the entries is specified
}

// bdecode is a decoder of its own: strict about integers and lengths, integers of any size.
func bdecode(b []byte) (bval, []byte, error) {
	bad := func(s string) (bval, []byte, error) { return nil, nil, errors.New(s) }
	if len(b) == 0 {
		return bad("unexpected end")
	}
	switch c := b[0]; {
	case c == 'i':
		e := bytes.IndexByte(b, 'e')
		if e < 0 {
			return bad("integer without end")
		}
		n, ok := new(big.Int).SetString(string(b[1:e]), 10)
		if !ok || n.String() != string(b[1:e]) {
			return bad(fmt.Sprintf("bad integer %q", b[1:e]))
		}
		return n, b[e+1:], nil
	case c == 'l' || c == 'd':
		rest := b[1:]
		l := []bval{}
		for {
			if len(rest) == 0 {
				return bad("list or dictionary without end")
			}
			if rest[0] == 'e' {
				break
			}
			v, r, err := bdecode(rest)
			if err != nil {
				return nil, nil, err
			}
			l = append(l, v)
			rest = r
		}
		rest = rest[1:]
		if c == 'l' {
			return l, rest, nil
		}
		if len(l)%2 != 0 {
			return bad("dictionary key without value")
		}
		d := bdict{order: true}
		for i := 0; i < len(l); i += 2 {
			k, ok := l[i].(string)
			if !ok {
				return bad("dictionary key is no string")
			}
			d.es = append(d.es, bkv{k, l[i+1]})
		}
		return d, rest, nil
	case c >= '0' && c <= '9':
		i := bytes.IndexByte(b, ':')
		if i < 0 {
			return bad("string without colon")
		}
		n, err := strconv.Atoi(string(b[:i]))
		if err != nil || strconv.Itoa(n) != string(b[:i]) || len(b)-i-1 < n {
			return bad(fmt.Sprintf("bad string length %q", b[:i]))
		}
		return string(b[i+1 : i+1+n]), b[i+1+n:], nil
	}
	return bad(fmt.Sprintf("unexpected %q", b[0]))
}

func bshow(v bval) string {
	switch v := v.(type) {
	case bdict:
		var s []string
		for _, e := range v.es {
			s = append(s, fmt.Sprintf("%q: %s", e.K, bshow(e.V)))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case []bval:
		var s []string
		for _, e := range v {
			s = append(s, bshow(e))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case string:
		if len(v) > 60 {
			return fmt.Sprintf("%q...(%d)", v[:60], len(v))
		}
		return fmt.Sprintf("%q", v)
	}
	return fmt.Sprint(v)
}

func bequal(want, got bval) bool {
	switch w := want.(type) {
	case bdict:
		g, ok := got.(bdict)
		if !ok || len(g.es) != len(w.es) {
			return false
		}
		used := make([]bool, len(g.es))
	next:
		for i, e := range w.es {
			if w.order {
				if g.es[i].K != e.K || !bequal(e.V, g.es[i].V) {
					return false
				}
				continue
			}
			for j := range g.es {
				if !used[j] && g.es[j].K == e.K && bequal(e.V, g.es[j].V) {
					used[j] = true
					continue next
				}
			}
			return false
		}
		return true
	case []bval:
		g, ok := got.([]bval)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !bequal(w[i], g[i]) {
				return false
			}
		}
		return true
	case *big.Int:
		g, ok := got.(*big.Int)
		return ok && g.Cmp(w) == 0
	}
	return want == got
}

type named string

// anyCase is a value for Any and what it must decode to; nil if the type is unsupported.
type anyCase struct {
	v    any
	want bval
}

func ints(n int64) *big.Int { return big.NewInt(n) }

var benStrings = []string{"", "a", "e", "i1e", "3:abc", "d", "\x00\xff:", "0", strings.Repeat("x", 9), strings.Repeat("y", 10), strings.Repeat("e", 99), strings.Repeat("z", 100), strings.Repeat("1:", 600), "\x00", "a\x00", "\x00a", " a", "a ", "a\n", "A", "\xc3\xa9", "-1", "+1", "b/c%d"}
var benInts = []int64{0, 1, -1, 9, 10, -10, 255, 256, 65535, 1 << 31, -1 << 31, math.MaxInt64, math.MinInt64}

func anyCases() []anyCase {
	cs := []anyCase{
		{nil, nil}, {true, nil}, {1.5, nil}, {named("x"), nil}, {[]int{1}, nil}, {[]any{"a"}, nil}, {[][]byte{{1}}, nil}, {struct{}{}, nil}, {uintptr(1), nil}, {map[string]string{"a": "b"}, nil}, {'x', ints('x')}, {errors.New("x"), nil}, {new(int), nil},
		{[]string(nil), []bval{}}, {[]string{""}, []bval{""}}, {[]string{"a", "e", "1:x"}, []bval{"a", "e", "1:x"}}, {[]byte(nil), ""},
		{map[string]any(nil), bdict{}}, {map[string]any{}, bdict{}},
		{map[string]any{"k": "v"}, bdict{es: []bkv{{"k", "v"}}}},
		{map[string]any{"k": 1, "": []byte("e"), "x": []string{"y"}}, bdict{es: []bkv{{"k", ints(1)}, {"", "e"}, {"x", []bval{"y"}}}}},
		{map[string]any{"k": map[string]any{"l": map[string]int32{"m": -1}}}, bdict{es: []bkv{{"k", bdict{es: []bkv{{"l", bdict{es: []bkv{{"m", ints(-1)}}}}}}}}}},
		{map[string]any{"k": false}, nil},
		{map[string]any{"a": 1, "k": map[string]any{"l": nil}}, nil},
		{map[string]any{"a": 1, "b": 2.5, "c": 3}, nil},
		{map[string]int32{}, bdict{}},
		{map[string]int32{"a": math.MinInt32, "bb": 7}, bdict{es: []bkv{{"a", ints(math.MinInt32)}, {"bb", ints(7)}}}},
		{map[string]map[string]int32{"h": {"c": 1, "i": 2}, "g": nil}, bdict{es: []bkv{{"h", bdict{es: []bkv{{"c", ints(1)}, {"i", ints(2)}}}}, {"g", bdict{}}}}},
	}
	for _, s := range benStrings {
		cs = append(cs, anyCase{s, s}, anyCase{[]byte(s), s})
	}
	for _, n := range benInts {
		cs = append(cs, anyCase{n, ints(n)}, anyCase{int(n), ints(n)}, anyCase{int32(n), ints(int64(int32(n)))}, anyCase{int16(n), ints(int64(int16(n)))}, anyCase{int8(n), ints(int64(int8(n)))})
		cs = append(cs, anyCase{uint64(n), new(big.Int).SetUint64(uint64(n))}, anyCase{uint(n), new(big.Int).SetUint64(uint64(n))}, anyCase{uint32(n), ints(int64(uint32(n)))}, anyCase{uint16(n), ints(int64(uint16(n)))}, anyCase{uint8(n), ints(int64(uint8(n)))})
	}
	return cs
}

// benState is a dictionary being written and what it must decode to.
type benState struct {
	d    *bencoding.Dictionary
	open []*bdict // the dictionary and its open embedded ones
	log  []string
}

func newBen(d *bencoding.Dictionary) *benState {
	return &benState{d: d, open: []*bdict{{order: true}}}
}

func (s *benState) add(k string, v bval) {
	t := s.open[len(s.open)-1]
	t.es = append(t.es, bkv{k, v})
}

func (s *benState) any(k string, c anyCase) {
	err := s.d.Any(k, c.v)
	if (err != nil) != (c.want == nil) {
		vs.Fail("Any(%q, %T %v) returned error %v", k, c.v, c.v, err)
		vs.Stop()
	}
	if c.want != nil {
		s.add(k, c.want)
	}
}

func (s *benState) start(k string, b bool) {
	if b {
		s.d.StartDictionaryBytes([]byte(k))
	} else {
		s.d.StartDictionary(k)
	}
	s.open = append(s.open, &bdict{order: true})
	s.log = append(s.log, "start "+k)
}

func (s *benState) end() {
	if len(s.open) > 1 {
		t := s.open[len(s.open)-1]
		s.open = s.open[:len(s.open)-1]
		// the key was given at the start
		k := ""
		for i := len(s.log) - 1; i >= 0; i-- {
			if strings.HasPrefix(s.log[i], "start ") {
				k = s.log[i][6:]
				s.log[i] = "started " + k
				break
			}
		}
		s.d.EndDictionary()
		s.add(k, *t)
	}
}

func (s *benState) finish(str bool) bool {
	for len(s.open) > 1 {
		s.end()
	}
	var out []byte
	if str {
		out = []byte(s.d.Get())
	} else {
		out = append([]byte(nil), s.d.GetBytes()...)
	}
	got, rest, err := bdecode(out)
	if err == nil && len(rest) != 0 {
		err = fmt.Errorf("%d bytes after the dictionary", len(rest))
	}
	if err != nil {
		vs.Fail("the output is no bencoding: %v; expected %s, output %q", err, bshow(*s.open[0]), out)
		return false
	}
	if !bequal(*s.open[0], got) {
		vs.Fail("the output decodes to %s, written was %s", bshow(got), bshow(*s.open[0]))
		return false
	}
	vs.Observe(string(out))
	Note("%s", bshow(got))
	return true
}

// benEach: every method with every key and value, on a fresh, reset or recycled dictionary.
func benEach() {
	setup(nil)
	var s *benState
	switch vs.Choose(3) {
	case 0:
		s = newBen(bencoding.NewDictionary())
	case 1:
		d := bencoding.NewDictionary()
		d.String("old", "value")
		d.StartDictionary("open")
		d.Get()
		d.Reset()
		s = newBen(d)
	case 2:
		d := pools.Dictionaries.Get()
		d.Int64("old", 1)
		d.GetBytes()
		pools.Dictionaries.Put(d)
		s = newBen(pools.Dictionaries.Get())
	}
	k := benStrings[vs.Choose(len(benStrings))]
	s.d.Int64("first", 1)
	s.add("first", ints(1))
	switch vs.Choose(8) {
	case 6, 7:
		s.start(k, vs.Choose(2) == 0)
		s.d.String("in", k)
		s.add("in", k)
		s.end()
	case 0:
		v := benStrings[vs.Choose(len(benStrings))]
		s.d.String(k, v)
		s.add(k, v)
	case 1:
		v := benStrings[vs.Choose(len(benStrings))]
		b := []byte(v)
		s.d.StringBytes(k, b)
		for i := range b {
			b[i] = 'Q' // the caller may reuse its slice
		}
		s.add(k, v)
	case 2:
		v := benInts[vs.Choose(len(benInts))]
		s.d.Int64(k, v)
		s.add(k, ints(v))
	case 3:
		n := vs.Choose(12)
		var l [][]byte
		w := []bval{}
		for i := 0; i < n; i++ {
			v := benStrings[(i+n)%len(benStrings)]
			l = append(l, []byte(v))
			w = append(w, v)
		}
		s.d.BytesliceSlice(k, l)
		s.add(k, w)
	case 4:
		cs := anyCases()
		s.any(k, cs[vs.Choose(len(cs))])
	case 5:
		in := bencoding.NewDictionary()
		v := benStrings[vs.Choose(len(benStrings))]
		in.String(v, k)
		s.d.Dictionary(k, in.Get())
		s.add(k, bdict{es: []bkv{{v, k}}, order: true})
	}
	s.d.String("last", "e")
	s.add("last", "e")
	s.finish(vs.Choose(2) == 0)
}

// benSizes: integers around every power of two and ten, strings of every length.
func benSizes() {
	setup(nil)
	s := newBen(bencoding.NewDictionary())
	switch k := vs.Choose(3); k {
	case 0: // all of a decade or around a power
		var ns []int64
		for i := int64(1); i > 0 && i < math.MaxInt64/10; i *= 10 {
			ns = append(ns, i)
		}
		for i := 0; i < 63; i++ {
			ns = append(ns, 1<<i)
		}
		c := ns[vs.Choose(len(ns))]
		for j := int64(-12); j <= 12; j++ {
			for _, n := range []int64{c + j, -(c + j)} {
				s.d.Int64(fmt.Sprint(n), n)
				s.add(fmt.Sprint(n), ints(n))
			}
		}
	case 1, 2:
		n := []int{0, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 2000, 4090, 8190, 9990, 16380, 32760, 65530, 99990}[vs.Choose(19)]
		w := 100
		if n > 1000 {
			w = 14
		}
		for i := n; i < n+w; i++ {
			v := strings.Repeat("e", i)
			if k == 1 {
				s.d.String("k", v)
				s.d.StringBytes("b", []byte(v))
				s.add("k", v)
				s.add("b", v)
			} else {
				s.d.BytesliceSlice(v, [][]byte{[]byte(v)})
				s.add(v, []bval{v})
			}
		}
	}
	s.finish(vs.Choose(2) == 0)
}

// benSeq: sequences of writes, with resets and embedded dictionaries.
func benSeq(n int) func() {
	return func() {
		setup(nil)
		s := newBen(bencoding.NewDictionary())
		type opf struct {
			name string
			f    func()
		}
		bin := "\x00e\xffé:12"
		reset := func() {
			s.d.Reset()
			s = newBen(s.d)
		}
		ops := []opf{
			{"String", func() { s.d.String("k", bin); s.add("k", bin) }},
			{"String empty", func() { s.d.String("", ""); s.add("", "") }},
			{"StringBytes", func() { s.d.StringBytes(bin, []byte("i3e")); s.add(bin, "i3e") }},
			{"StringBytes nil", func() { s.d.StringBytes("n", nil); s.add("n", "") }},
			{"Int64", func() { s.d.Int64("int", math.MinInt64); s.add("int", ints(math.MinInt64)) }},
			{"Int64 0", func() { s.d.Int64(bin, 0); s.add(bin, ints(0)) }},
			{"BytesliceSlice", func() { s.d.BytesliceSlice("l", [][]byte{[]byte(bin), nil}); s.add("l", []bval{bin, ""}) }},
			{"BytesliceSlice nil", func() { s.d.BytesliceSlice("", nil); s.add("", []bval{}) }},
			{"start", func() { s.start("sub", false) }},
			{"start bytes", func() { s.start(bin, true) }},
			{"end", func() { s.end() }},
			{"Dictionary", func() { s.d.Dictionary("dd", "d1:ai1ee"); s.add("dd", bdict{es: []bkv{{"a", ints(1)}}, order: true}) }},
			{"Any int", func() { s.any("any", anyCase{uint64(math.MaxUint64), new(big.Int).SetUint64(math.MaxUint64)}) }},
			{"Any list", func() { s.any("any", anyCase{[]string{bin, "e"}, []bval{bin, "e"}}) }},
			{"Any dict", func() {
				s.any("any", anyCase{map[string]any{"b": "c", bin: 1}, bdict{es: []bkv{{"b", "c"}, {bin, ints(1)}}}})
			}},
			{"Any bad", func() { s.any("bad", anyCase{v: 1.5}) }},
			{"Any bad inside", func() { s.any("bad", anyCase{v: map[string]any{"b": "c", "x": true}}) }},
			{"Reset", func() { reset() }},
			{"Get, Reset", func() {
				if !s.finish(true) {
					vs.Stop()
				}
				reset()
			}},
			{"GetBytes, recycle", func() {
				if !s.finish(false) {
					vs.Stop()
				}
				d := s.d
				pools.Dictionaries.Put(d)
				s = newBen(pools.Dictionaries.Get())
			}},
			{"many", func() {
				for i := 0; i < 40; i++ {
					k := strings.Repeat("k", i)
					s.d.Int64(k, int64(i))
					s.add(k, ints(int64(i)))
				}
			}},
		}
		for i := 0; i < n; i++ {
			k := vs.Choose(len(ops) + 1)
			if k == len(ops) {
				break
			}
			ops[k].f()
		}
		s.finish(vs.Choose(2) == 0)
	}
}

// benLarge: deep, long and numerous values, and small ones afterwards.
func benLarge() {
	setup(nil)
	d := bencoding.NewDictionary()
	pooled := vs.Choose(2) == 1
	if pooled {
		d = pools.Dictionaries.Get()
	}
	s := newBen(d)
	n := []int{31, 32, 33, 400, 1000, 65535, 65536, 300_000}[vs.Choose(8)]
	k := vs.Choose(8)
	what := fmt.Sprintf("kind %d with %d", k, n)
	text := strings.Repeat("e1:", (n+2)/3)[:n]
	few := n
	if few > 1000 {
		few = 1000 + n%1000
	}
	switch k {
	case 0:
		for i := 0; i < few; i++ {
			s.start(fmt.Sprint(i), i%2 == 0)
			s.d.Int64("n", int64(i))
			s.add("n", ints(int64(i)))
		}
	case 1:
		for i := 0; i < few; i++ {
			s.d.String(fmt.Sprint(i), text[:i%30])
			s.add(fmt.Sprint(i), text[:i%30])
		}
	case 2:
		s.d.String(text, "v")
		s.add(text, "v")
	case 3:
		s.d.String("k", text)
		s.add("k", text)
	case 4:
		s.d.StringBytes("k", []byte(text))
		s.add("k", text)
	case 5, 6:
		var l [][]byte
		var ss []string
		w := []bval{}
		for i := 0; i < few; i++ {
			l, ss, w = append(l, []byte(text[:i%30])), append(ss, text[:i%30]), append(w, text[:i%30])
		}
		if k == 5 {
			s.d.BytesliceSlice("l", l)
			s.add("l", w)
		} else {
			s.any("l", anyCase{ss, w})
		}
	case 7:
		s.start(text, true)
		s.any("k", anyCase{[]byte(text), text})
		s.end()
	}
	s.d.String("last", "e")
	s.add("last", "e")
	if !s.finish(vs.Choose(2) == 0) {
		vs.Fail("%s", what)
		return
	}
	if pooled {
		pools.Dictionaries.Put(d)
		d = pools.Dictionaries.Get()
	} else {
		d.Reset()
	}
	s = newBen(d)
	s.d.String("a", "b")
	s.add("a", "b")
	if !s.finish(false) {
		vs.Fail("after %s", what)
	}
	Note("%s", what)
}

func init() {
	seq := vs.Budget{MaxSteps: 200_000, FreeSw: -1}
	register(&Check{ID: "C29", Configs: func(d bool) []Config {
		return []Config{
			{Name: "each method", Run: benEach, B: vs.Budget{MaxSteps: 200_000, FreeSw: -1, MapOrder: true}, Bound: "7 methods x 24 keys x 24 values (more for Any) x fresh, reset, recycled; both iteration orders of maps"},
			{Name: "large", Run: benLarge, B: seq, Bound: "8 kinds of deep, long or numerous values of 31..300000"},
			{Name: "sizes", Run: benSizes, B: seq, Bound: "integers around every power of 2 and 10, strings and keys of every length up to 1100 and around powers of 2 and 10 up to 100000"},
			{Name: "sequences", Run: benSeq(seqDepth(4, 5)), B: seq, Bound: fmt.Sprintf("all sequences up to %d of 21 writes", seqDepth(4, 5))},
		}
	}})
}
