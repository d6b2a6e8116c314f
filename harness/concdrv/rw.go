package concdrv

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/zijiren233/gencontainer/rwmap"
	"verifharness/vsched"
)

const rwKeys = 3

// rwMap is the map under test with keys and values numbered.
type rwMap interface {
	Load(k int) (int, bool)
	Store(k, v int)
	LoadOrStore(k, v int) (int, bool)
	LoadAndDelete(k int) (int, bool)
	Delete(k int)
	Swap(k, v int) (int, bool)
	CompareAndSwap(k, o, n int) bool
	CompareAndDelete(k, o int) bool
	Range(f func(k, v int) bool)
	Clear()
	Len() int64
	SlowLen() int64
}

type rwT[K comparable, V any] struct {
	m  rwmap.RWMap[K, V]
	ek func(int) K
	dk func(K) int
	ev func(int) V
	dv func(V) int
}

func (x *rwT[K, V]) Load(k int) (int, bool) { v, ok := x.m.Load(x.ek(k)); return x.dv(v), ok }
func (x *rwT[K, V]) Store(k, v int)         { x.m.Store(x.ek(k), x.ev(v)) }
func (x *rwT[K, V]) LoadOrStore(k, v int) (int, bool) {
	a, ok := x.m.LoadOrStore(x.ek(k), x.ev(v))
	return x.dv(a), ok
}
func (x *rwT[K, V]) LoadAndDelete(k int) (int, bool) {
	v, ok := x.m.LoadAndDelete(x.ek(k))
	return x.dv(v), ok
}
func (x *rwT[K, V]) Delete(k int) { x.m.Delete(x.ek(k)) }
func (x *rwT[K, V]) Swap(k, v int) (int, bool) {
	p, ok := x.m.Swap(x.ek(k), x.ev(v))
	return x.dv(p), ok
}
func (x *rwT[K, V]) CompareAndSwap(k, o, n int) bool {
	return x.m.CompareAndSwap(x.ek(k), x.ev(o), x.ev(n))
}
func (x *rwT[K, V]) CompareAndDelete(k, o int) bool { return x.m.CompareAndDelete(x.ek(k), x.ev(o)) }
func (x *rwT[K, V]) Range(f func(k, v int) bool) {
	x.m.Range(func(k K, v V) bool { return f(x.dk(k), x.dv(v)) })
}
func (x *rwT[K, V]) Clear()         { x.m.Clear() }
func (x *rwT[K, V]) Len() int64     { return x.m.Len() }
func (x *rwT[K, V]) SlowLen() int64 { return x.m.SlowLen() }

func idInt(i int) int { return i }

// key number 1 is the zero value
func from0(i int) int { return i - 1 }
func to1(i int) int   { return i + 1 }

type skey struct {
	a int
	s string
}

const (
	rwVariants = 7
	rwNaN      = 9
)

var ptrID = map[*int]int{nil: 0}

var ptrs = func() (p [200]*int) {
	for i := 1; i < len(p); i++ {
		p[i] = new(int) // equal contents
		ptrID[p[i]] = i
	}
	return
}()

func newRW(variant int) rwMap {
	switch variant {
	case 1:
		es := func(i int) string {
			if i == 0 {
				return ""
			}
			return fmt.Sprint("v", i)
		}
		ds := func(s string) (i int) { fmt.Sscanf(s, "v%d", &i); return }
		return &rwT[string, string]{ek: es, dk: ds, ev: es, dv: ds}
	case 2:
		ek := func(i int) any {
			switch i {
			case 1:
				return "one"
			case 2:
				return nil
			}
			return i
		}
		dk := func(x any) int {
			switch x {
			case "one":
				return 1
			case nil:
				return 2
			}
			return x.(int)
		}
		ev := func(i int) any {
			if i == 0 {
				return nil
			}
			switch n := (i + 3) / 4; i % 4 { // different types, alike otherwise
			case 0:
				return int64(n)
			case 1:
				return int32(n)
			case 2:
				return float64(n)
			default:
				return [1]any{n}
			}
		}
		dv := func(x any) int {
			switch x := x.(type) {
			case nil:
				return 0
			case int64:
				return 4 * int(x)
			case int32:
				return 4*int(x) - 3
			case float64:
				return 4*int(x) - 2
			case [1]any:
				return 4*x[0].(int) - 1
			}
			return -1
		}
		return &rwT[any, any]{ek: ek, dk: dk, ev: ev, dv: dv}
	case 3:
		return &rwT[skey, [3]int]{ek: func(i int) skey { return skey{i % 2, fmt.Sprint(i)} }, dk: func(k skey) (i int) { fmt.Sscan(k.s, &i); return },
			ev: func(i int) [3]int { return [3]int{0, i, 0} }, dv: func(a [3]int) int { return a[1] }}
	case 4:
		return &rwT[int, struct{}]{ek: idInt, dk: idInt, ev: func(int) struct{} { return struct{}{} }, dv: func(struct{}) int { return 0 }}
	case 5:
		return &rwT[int, *int]{ek: idInt, dk: idInt, ev: func(i int) *int { return ptrs[i] }, dv: func(p *int) int {
			if i, ok := ptrID[p]; ok {
				return i
			}
			return -1
		}}
	case 6:
		return &rwT[int, float64]{ek: idInt, dk: idInt, ev: func(i int) float64 {
			if i == rwNaN {
				return math.NaN()
			}
			return float64(i)
		}, dv: func(f float64) int {
			if f != f {
				return rwNaN
			}
			return int(f)
		}}
	}
	return &rwT[int, int]{ek: from0, dk: to1, ev: idInt, dv: idInt}
}

type rwSys struct {
	prop string
	m    rwMap
	one  bool // every value is the zero-size value
	keys int
}

func (s *rwSys) Reset(sc *Scenario) {
	s.m = newRW(sc.Cfg[0])
	s.one = sc.Cfg[0] == 4
	s.keys = max(rwKeys, sc.Wide)
}

func (s *rwSys) Exec(t int, o Op) {
	a := append([]int(nil), o.A...)
	if s.one {
		for i := 1; i < len(a); i++ {
			if o.Op != "Range" {
				a[i] = 0
			}
		}
	}
	logEv("call", t, o.Op, a, nil)
	r := []int{}
	vb := func(v int, b bool) { r = ints(v, b2i(b)) }
	m := s.m
	switch o.Op {
	case "Load":
		vb(m.Load(a[0]))
	case "Store":
		m.Store(a[0], a[1])
	case "LoadOrStore":
		vb(m.LoadOrStore(a[0], a[1]))
	case "LoadAndDelete":
		vb(m.LoadAndDelete(a[0]))
	case "Delete":
		m.Delete(a[0])
	case "Swap":
		vb(m.Swap(a[0], a[1]))
	case "CompareAndSwap":
		r = ints(b2i(m.CompareAndSwap(a[0], a[1], a[2])))
	case "CompareAndDelete":
		r = ints(b2i(m.CompareAndDelete(a[0], a[1])))
	case "Clear":
		m.Clear()
	case "Len":
		m.Len()
	case "SlowLen":
		m.SlowLen()
	case "Range":
		n := 0
		m.Range(func(k, v int) bool {
			n++
			c := a[0] == 0 || n < a[0]
			logEv("visit", t, "Range", ints(k, v, b2i(c)), nil)
			if len(o.Sub) >= n {
				exec(s, t+10, o.Sub[n-1])
			}
			vsched.Yield()
			return c
		})
	default:
		panic("op " + o.Op)
	}
	logEv("ret", t, o.Op, nil, r)
}

func (s *rwSys) Idle() {}

func (s *rwSys) Close() {
	if s.prop != "C02" {
		return
	}
	defer func() {
		if recover() != nil {
			logEv("deadlock", 0, "", nil, nil)
		}
	}()
	n := int(s.m.Len())
	c := 0
	for k := 0; k <= s.keys; k++ {
		if _, ok := s.m.Load(k); ok {
			c++
		}
	}
	sl := int(s.m.SlowLen())
	logEv("quiet", 0, "", ints(c), ints(n, sl, int(s.m.Len())))
}

func (s *rwSys) Filter(e []Ev) []Ev {
	var r []Ev
	for _, x := range e {
		switch s.prop {
		case "C01":
			if (x.Op == "Len" || x.Op == "SlowLen" || x.Op == "Range") && (x.E == "call" || x.E == "ret" || x.E == "visit") {
				continue
			}
		case "C02":
			if x.E == "visit" {
				continue
			}
		case "C03":
			if (x.Op == "Len" || x.Op == "SlowLen") && (x.E == "call" || x.E == "ret") {
				continue
			}
		}
		r = append(r, x)
	}
	return r
}

// Split gives the history, or its restrictions to three keys each.
func (s *rwSys) Split(sc *Scenario, e []Ev) (cs [][]int, hs [][]Ev) {
	e = s.Filter(e)
	if sc.Wide == 0 || s.prop == "C02" {
		return [][]int{sc.Cfg}, [][]Ev{e}
	}
	for f := 1; f <= sc.Wide; f += 3 {
		x := project(e, sc.Wide, f, func(x *Ev) int {
			switch {
			case x.E == "visit":
				return x.A[0]
			case x.E != "call" || x.Op == "Clear" || x.Op == "Range" || x.Op == "Len" || x.Op == "SlowLen":
				return 0
			}
			return x.A[0]
		})
		if sampled(sc.Wide, f) || s.Judge(sc.Cfg, normal(x, "")) >= 0 {
			cs, hs = append(cs, sc.Cfg), append(hs, x)
		}
	}
	return
}

// wide: many keys, a long history, then two threads.
func (s *rwSys) wide(r *rand.Rand) Scenario {
	n := wideN(r)
	if s.prop == "C02" { // judged in one piece
		n = min(n, 300)
	}
	sc := Scenario{Cfg: ints(0), Wide: n}
	if r.Intn(3) == 0 {
		sc.Cfg[0] = r.Intn(rwVariants)
	}
	hot := 1 + r.Intn(3)
	one := func(base int) Op {
		o := s.randOp(r, base, n)
		for o.Op == "Clear" && r.Intn(6) > 0 {
			o = s.randOp(r, base, n)
		}
		if o.Op == "Range" {
			o.A[0] = 0
		}
		return o
	}
	var p []Op
	for ph := 1 + r.Intn(4); ph > 0; ph-- {
		switch r.Intn(7) {
		case 0: // fill
			for k := 1; k <= n; k++ {
				p = append(p, op([]string{"Store", "LoadOrStore", "Swap"}[r.Intn(3)], k, 1+r.Intn(7)))
			}
		case 1: // misses
			for i := r.Intn(2 * n); i > 0; i-- {
				p = append(p, op("Load", 1+r.Intn(n)))
			}
		case 2: // thin out
			for k := 1; k <= n; k++ {
				if r.Intn(4) > 0 {
					p = append(p, op([]string{"Delete", "LoadAndDelete"}[r.Intn(2)], k))
				}
			}
		case 3:
			for k := 1 + r.Intn(n); k <= n; k++ {
				p = append(p, op("CompareAndDelete", k, 1+r.Intn(7)), op("CompareAndSwap", k, 1+r.Intn(7), 1+r.Intn(7)))
			}
		case 4:
			p = append(p, op("Range", 0))
		default:
			for i := r.Intn(n); i > 0; i-- {
				p = append(p, one(1+r.Intn(7)))
			}
		}
	}
	sc.Phases = [][][]Op{{p}}
	for ph := r.Intn(3); ph > 0; ph-- {
		var th [][]Op
		for t := 0; t < 2; t++ {
			var q []Op
			for i := 1 + r.Intn(4); i > 0; i-- {
				o := one(10*(t+1) + len(q) + 1)
				if len(o.A) > 0 && o.Op != "Range" && r.Intn(2) == 0 {
					o.A[0] = hot
				}
				q = append(q, o)
			}
			th = append(th, q)
		}
		sc.Phases = append(sc.Phases, th)
	}
	fin := []Op{op("Range", 0)}
	for k := 1; k <= n; k++ {
		fin = append(fin, op("Load", k))
	}
	sc.Phases = append(sc.Phases, [][]Op{fin})
	return sc
}

func op(n string, a ...int) Op { return Op{Op: n, A: append([]int{}, a...)} }

// hidden states of the map, reached through its public interface
func rwPrefixes() [][]Op {
	s1, s2, l1, l3 := op("Store", 1, 1), op("Store", 2, 2), op("Load", 1), op("Load", 3)
	d1, cl, rg := op("Delete", 1), op("Clear"), op("Range", 0)
	return [][]Op{
		{},                   // zero map
		{s1},                 // 1 only in dirty
		{s1, l1},             // 1 in read, no dirty
		{s1, l1, d1},         // 1 nil in read
		{s1, l1, d1, s2},     // 1 expunged, 2 in dirty
		{s1, l1, s2},         // 1 in both, 2 in dirty only
		{s1, l1, s2, d1},     // 1 nil in both, 2 in dirty only
		{s1, l1, s2, l3},     // as before, one miss before promotion
		{s1, s2, rg},         // both in read
		{s1, s2, rg, d1},     // 1 nil, 2 in read
		{s1, l1, s2, cl},     // cleared with a dirty map
		{s1, l1, cl},         // cleared without a dirty map
		{s1, l1, s2, cl, s1}, // refilled after Clear
		{s1, s2},             // both only in dirty
		{s1, l1, d1, s2, rg}, // 1 dropped by promotion
	}
}

func rwOps(base int) []Op {
	return []Op{
		op("Load", 1), op("Store", 1, base+1), op("LoadOrStore", 1, base+2), op("LoadAndDelete", 1), op("Swap", 1, base+3),
		op("CompareAndSwap", 1, 1, base+4), op("CompareAndDelete", 1, 1), op("Clear"), op("Store", 2, base+5), op("Delete", 2), op("Range", 0),
		op("CompareAndDelete", 2, 2), op("LoadOrStore", 2, base+6), op("Load", 3), op("Store", 3, base+7),
	}
}

func (s *rwSys) final() [][]Op {
	return [][]Op{{op("Load", 1), op("Load", 2), op("Load", 3)}}
}

func (s *rwSys) Systematic(yield func(Scenario) bool) {
	pre := rwPrefixes()
	A, B := rwOps(10), rwOps(20)
	if s.prop == "C03" {
		subs := append([]Op{}, rwOps(30)...)
		var rs []Op
		rs = append(rs, op("Range", 0), op("Range", 1))
		for _, p := range pre {
			for _, x := range subs { // re-entrant, single goroutine
				if !yield(Scenario{Cfg: ints(0), Phases: [][][]Op{{p}, {{{Op: "Range", A: ints(0), Sub: []Op{x, op("Store", 3, 41)}}}}, {{op("Range", 0)}}}}) {
					return
				}
			}
		}
		for _, p := range pre {
			for _, b := range B {
				for _, r := range rs {
					for _, c := range []Op{{}, op("Store", 1, 29), op("Delete", 1), op("Clear"), op("Store", 3, 28), op("Load", 3)} {
						prog := []Op{b}
						if c.Op != "" {
							prog = append(prog, c)
						}
						if !yield(Scenario{Cfg: ints(0), Phases: [][][]Op{{p}, {{r}, prog}, {{op("Range", 0)}}}}) {
							return
						}
					}
				}
			}
		}
		return
	}
	for _, p := range pre {
		for i, a := range A {
			for j, b := range B {
				if j < i {
					continue
				}
				if !yield(Scenario{Cfg: ints(0), Phases: [][][]Op{{p}, {{a}, {b}}, s.final()}}) {
					return
				}
			}
		}
	}
	// a comparison while the value compared with is stored again, or comes back
	for _, p := range pre {
		for _, a := range []Op{op("CompareAndSwap", 1, 1, 14), op("CompareAndDelete", 1, 1)} {
			for _, b := range [][]Op{
				{op("Store", 1, 1)}, {op("Swap", 1, 1)}, {op("LoadOrStore", 1, 1)}, {op("CompareAndSwap", 1, 1, 1)},
				{op("Store", 1, 21), op("Store", 1, 1)}, {op("LoadAndDelete", 1), op("Store", 1, 1)},
			} {
				if !yield(Scenario{Cfg: ints(0), Phases: [][][]Op{{p}, {{a}, b}, s.final()}}) {
					return
				}
			}
		}
	}
	// one operation against two
	for _, p := range pre {
		for _, a := range A[:11] {
			for _, b := range B[:8] {
				for _, c := range rwOps(30)[:8] {
					if !yield(Scenario{Cfg: ints(0), Phases: [][][]Op{{p}, {{a}, {b, c}}, s.final()}}) {
						return
					}
				}
			}
		}
	}
}

func (s *rwSys) randOp(r *rand.Rand, base int, keys int) Op {
	k := 1 + r.Intn(keys)
	v := base
	old := []int{0, 1, 2, 11, 12, 21, 22, 31, rwNaN}[r.Intn(9)]
	switch r.Intn(24) {
	case 0, 1:
		v = 0
	case 2, 3:
		v = 1
	case 4:
		v = 2
	}
	if r.Intn(12) == 0 {
		v = rwNaN
	}
	switch x := r.Intn(24); {
	case x < 3:
		return op("Load", k)
	case x < 6:
		return op("Store", k, v)
	case x < 9:
		return op("LoadOrStore", k, v)
	case x < 12:
		return op("LoadAndDelete", k)
	case x < 13:
		return op("Delete", k)
	case x < 15:
		return op("Swap", k, v)
	case x < 17:
		return op("CompareAndSwap", k, old, v)
	case x < 20:
		return op("CompareAndDelete", k, old)
	case x < 22:
		return op("Clear")
	case x < 23 && s.prop != "C03":
		return op("SlowLen")
	default:
		o := op("Range", r.Intn(3)*r.Intn(2))
		if r.Intn(2) == 0 {
			for i := 0; i < 1+r.Intn(2); i++ {
				y := s.randOp(r, base+50, keys)
				if y.Op != "Range" {
					o.Sub = append(o.Sub, y)
				}
			}
		}
		return o
	}
}

func (s *rwSys) Random(r *rand.Rand) Scenario {
	if r.Intn(5) == 0 {
		return s.wide(r)
	}
	sc := Scenario{Cfg: ints(0)}
	if r.Intn(3) == 0 {
		sc.Cfg[0] = r.Intn(rwVariants)
	}
	keys := 1 + r.Intn(rwKeys)
	if r.Intn(5) == 0 { // a sequential history
		var p []Op
		for i := 4 + r.Intn(20); i > 0; i-- {
			p = append(p, s.randOp(r, 1+r.Intn(8), rwKeys))
		}
		sc.Phases = [][][]Op{{p}, s.final()}
		return sc
	}
	var p []Op
	if r.Intn(2) == 0 {
		ps := rwPrefixes()
		p = ps[r.Intn(len(ps))]
	} else {
		for i := r.Intn(8); i > 0; i-- {
			p = append(p, s.randOp(r, 1+r.Intn(2), keys))
		}
	}
	sc.Phases = append(sc.Phases, [][]Op{p})
	nt := 2 + r.Intn(3)/2
	for ph := 1 + r.Intn(3)/2; ph > 0; ph-- {
		var th [][]Op
		for t := 0; t < nt; t++ {
			var q []Op
			for i := 1 + r.Intn(3); i > 0; i-- {
				if s.prop == "C03" && t == 0 && len(q) == 0 {
					o := s.randOp(r, 11, keys)
					for o.Op != "Range" {
						o = s.randOp(r, 11, keys)
					}
					q = append(q, o)
					continue
				}
				q = append(q, s.randOp(r, 10*(t+1)+len(q)+1, keys))
			}
			th = append(th, q)
		}
		sc.Phases = append(sc.Phases, th)
	}
	sc.Phases = append(sc.Phases, s.final())
	return sc
}
