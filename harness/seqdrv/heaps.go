package main

import (
	"math"
	"math/rand"
	"reflect"
	"slices"
	"sort"

	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/pqueue"
	"github.com/zijiren233/gencontainer/set"
)

// ---------------------------------------------------------------- heap

type custom struct {
	d   []int
	rev bool
}

func (c *custom) Len() int { return len(c.d) }
func (c *custom) Less(i, j int) bool {
	if c.rev {
		return key(c.d[i]) > key(c.d[j])
	}
	return key(c.d[i]) < key(c.d[j])
}
func (c *custom) Swap(i, j int) { c.d[i], c.d[j] = c.d[j], c.d[i] }
func (c *custom) Push(x int)    { c.d = append(c.d, x) }
func (c *custom) Pop() int {
	x := c.d[len(c.d)-1]
	c.d = c.d[:len(c.d)-1]
	return x
}

// anyHeap: a heap of some element type, seen through integers.
type anyHeap interface {
	data() []int
	load(d []int)
	exec(op string, a []int) []int
	drain(max int) []int
}

type typedHeap[T heapElem] struct {
	max bool
	mi  heap.MinHeap[T]
	ma  heap.MaxHeap[T]
	enc func(int) T
	dec func(T) int
}

type heapElem interface {
	~int | ~int32 | ~string | ~float64 | ~uint64
}

func (t *typedHeap[T]) h() heap.Interface[T] {
	if t.max {
		return &t.ma
	}
	return &t.mi
}
func (t *typedHeap[T]) raw() []T {
	if t.max {
		return t.ma
	}
	return t.mi
}
func (t *typedHeap[T]) data() (d []int) {
	for _, x := range t.raw() {
		d = append(d, t.dec(x))
	}
	return
}
func (t *typedHeap[T]) load(d []int) {
	var x []T
	for _, v := range d {
		x = append(x, t.enc(v))
	}
	if t.max {
		t.ma = x
	} else {
		t.mi = x
	}
}
func (t *typedHeap[T]) exec(op string, a []int) []int {
	return heapOp(t.h(), t.raw, t.enc, t.dec, op, a)
}
func (t *typedHeap[T]) drain(max int) []int {
	c := typedHeap[T]{max: t.max, enc: t.enc, dec: t.dec}
	c.mi, c.ma = slices.Clone(t.mi), slices.Clone(t.ma)
	return heapDrain(c.h(), t.dec, max)
}

func heapDrain[T any](h heap.Interface[T], dec func(T) int, max int) (d []int) {
	for h.Len() > 0 && len(d) < max {
		d = append(d, dec(heap.Pop(h)))
	}
	return
}
func heapOp[T any](h heap.Interface[T], raw func() []T, enc func(int) T, dec func(T) int, op string, a []int) []int {
	switch op {
	case "Init":
		heap.Init(h)
		return nil
	case "Push":
		heap.Push(h, enc(a[0]))
		return nil
	case "Pop":
		return []int{dec(heap.Pop(h))}
	case "Remove":
		return []int{dec(heap.Remove(h, a[0]))}
	case "Fix":
		raw()[a[0]] = enc(a[2])
		heap.Fix(h, a[0])
		return nil
	}
	panic(op)
}

func same(x int) int { return x }

func (c *custom) data() []int                   { return c.d }
func (c *custom) load(d []int)                  { c.d = append([]int{}, d...) }
func (c *custom) exec(op string, a []int) []int { return heapOp[int](c, c.data, same, same, op, a) }
func (c *custom) drain(max int) []int {
	return heapDrain[int](&custom{slices.Clone(c.d), c.rev}, same, max)
}

type hname string
type hnum int32

const heapTypes = 5

type heapSys struct {
	x anyHeap
}

// cfg: the kind of heap, the type of its elements (MinHeap and MaxHeap)
func (s *heapSys) Reset(cfg []int) {
	t, max := 0, cfg[0] == 2
	if len(cfg) > 1 {
		t = cfg[1]
	}
	switch {
	case cfg[0] > 2:
		s.x = &custom{rev: cfg[0] == 4}
	case t == 0:
		s.x = &typedHeap[int]{max: max, enc: same, dec: same}
	case t == 1:
		s.x = &typedHeap[hname]{max: max, enc: func(x int) hname {
			if x == -4000 { // the least value: the zero value
				return ""
			}
			return hname(itoa(200000 + x))
		}, dec: func(x hname) int {
			if x == "" {
				return -4000
			}
			return atoi(string(x)) - 200000
		}}
	case t == 2:
		s.x = &typedHeap[float64]{max: max, enc: func(x int) float64 {
			switch x {
			case -4000:
				return math.Inf(-1)
			case 4000:
				return math.Inf(1)
			}
			return float64(x) / 1024
		}, dec: func(x float64) int {
			switch {
			case math.IsInf(x, -1):
				return -4000
			case math.IsInf(x, 1):
				return 4000
			}
			return int(x * 1024)
		}}
	case t == 3:
		s.x = &typedHeap[uint64]{max: max, enc: func(x int) uint64 { return uint64(x) + 1<<63 }, dec: func(x uint64) int { return int(x - 1<<63) }}
	default:
		s.x = &typedHeap[hnum]{max: max, enc: func(x int) hnum { return hnum(x * 500000) }, dec: func(x hnum) int { return int(x / 500000) }}
	}
}
func (s *heapSys) Exec(op string, a []int) []int {
	if op == "Init" {
		s.x.load(a)
	}
	return s.x.exec(op, a)
}
func (s *heapSys) Proj() [][]int {
	d := s.x.data()
	return [][]int{s.x.drain(20000), sorted(d), {len(d)}}
}
func (s *heapSys) RandCfg(r *rand.Rand) []int { return []int{1 + r.Intn(4), r.Intn(heapTypes)} }
func (s *heapSys) val(r *rand.Rand) int {
	v := 100*r.Intn(pick(r, 4, 20)) + r.Intn(4)
	if r.Intn(12) == 0 {
		v = 4000
	}
	if r.Intn(4) == 0 {
		v = -v
	}
	return v
}
func (s *heapSys) Rand(r *rand.Rand) (string, []int) {
	d := s.x.data()
	n := len(d)
	if n == 0 {
		if r.Intn(2) == 0 || *big == 2 {
			m := r.Intn(lim(18, 260, 1500))
			if *big == 2 && r.Intn(4) == 0 {
				m = 8000 + r.Intn(2000)
			}
			a := []int{}
			for i := 0; i < m; i++ {
				a = append(a, s.val(r))
			}
			return "Init", a
		}
		return "Push", []int{s.val(r)}
	}
	i := hot(r, n)
	switch x := r.Intn(12); {
	case x < 4 && n < lim(20, 260, 1600):
		return "Push", []int{s.val(r)}
	case x < 6:
		return "Pop", nil
	case x < 9:
		return "Remove", []int{i, d[i]}
	}
	return "Fix", []int{i, d[i], s.val(r)}
}

// ---------------------------------------------------------------- pqueue

var prios = []int{math.MinInt64, math.MinInt64 + 1, -1 << 40, -(1 << 32), -7, -1, 0, 1, 7, 1 << 32, 1 << 40, math.MaxInt64 - 1, math.MaxInt64}

func prioRank(p int) int {
	for i, x := range prios {
		if x == p {
			return i + 1
		}
	}
	return -5
}

type pqSys struct {
	q *pqueue.PQueue[string]
	n int
}

func (s *pqSys) Reset(cfg []int) {
	if cfg[0] == 1 {
		s.q = pqueue.NewMinPriorityQueue[string]()
	} else {
		s.q = pqueue.NewMaxPriorityQueue[string]()
	}
	s.n = 0
}
func (s *pqSys) Exec(op string, a []int) []int {
	switch op {
	case "Push":
		s.q.Push(prios[a[0]-1], itoa(a[1]-1))
		return nil
	case "Pop":
		p, v := s.q.Pop()
		return []int{prioRank(p), atoi(v) + 1}
	}
	panic(op)
}
func (s *pqSys) Proj() [][]int              { return [][]int{{s.q.Len()}} }
func (s *pqSys) RandCfg(r *rand.Rand) []int { return []int{1 + r.Intn(2)} }
func (s *pqSys) Rand(r *rand.Rand) (string, []int) {
	if s.q.Len() == 0 || s.q.Len() < lim(25, 300, 1400) && r.Intn(5) < lim(3, 4) {
		s.n++
		return "Push", []int{1 + r.Intn(pick(r, len(prios), len(prios), 5)), s.n}
	}
	return "Pop", nil
}
func (s *pqSys) Final() (c []call) {
	for i := s.q.Len(); i > 0 && len(c) < lim(60, 400, 1500); i-- {
		c = append(c, call{"Pop", []int{}})
	}
	return
}

// ---------------------------------------------------------------- set

type ord interface {
	~int | ~string | ~float64
}
type setAny interface {
	Sys
}
type setT[T ord] struct {
	reg []set.Set[T]
	ro  map[int]bool // registers holding the nil set, which reads as empty and cannot be written
	e   func(int) T
	d   func(T) int
}
type setSys struct{ setAny }

func (s *setSys) Reset(cfg []int) {
	switch cfg[0] {
	case 0:
		s.setAny = &setT[int]{e: from0, d: to1}
	case 1:
		s.setAny = &setT[string]{e: from0s, d: to1s}
	default:
		s.setAny = &setT[float64]{e: func(i int) float64 { return float64(i-1) / 4 }, d: func(f float64) int { return int(f*4) + 1 }}
	}
	s.setAny.Reset(cfg)
}
func (s *setSys) RandCfg(r *rand.Rand) []int  { return []int{r.Intn(3), 2 + r.Intn(3)} }
func (s *setT[T]) RandCfg(r *rand.Rand) []int { return nil }
func (s *setT[T]) Reset(cfg []int) {
	s.reg, s.ro = nil, map[int]bool{}
	for i := 0; i < cfg[1]; i++ {
		s.reg = append(s.reg, set.New[T]())
	}
}
func (s *setT[T]) Exec(op string, a []int) []int {
	R := s.reg[a[0]-1]
	S := func(i int) set.Set[T] { return s.reg[a[i]-1] }
	switch op {
	case "New", "Difference", "SymmetricDifference", "Intersection", "Union":
		delete(s.ro, a[0])
	}
	switch op {
	case "Nil":
		s.reg[a[0]-1] = nil
		s.ro[a[0]] = true
	case "RangeRemove":
		var r []int
		R.Range(func(v T) bool {
			r = append(r, s.d(v))
			R.Remove(v)
			return !(a[1] > 0 && len(r) == a[1]) && len(r) < 5000
		})
		return r
	case "Insert":
		return []int{b2i(R.Insert(s.e(a[1])))}
	case "Push":
		var v []T
		for _, x := range a[1:] {
			v = append(v, s.e(x))
		}
		itself(R, R.Push(v...))
	case "Remove":
		return []int{b2i(R.Remove(s.e(a[1])))}
	case "ContainAndRemove":
		return []int{b2i(R.ContainAndRemove(s.e(a[1])))}
	case "Contain":
		return []int{b2i(R.Contain(s.e(a[1])))}
	case "IsEmpty":
		return []int{b2i(R.IsEmpty())}
	case "Clear":
		itself(R, R.Clear())
	case "New":
		s.reg[a[0]-1] = set.New[T]()
	case "CopyFrom":
		itself(R, R.CopyFrom(S(1)))
	case "Clone":
		s.reg[a[0]-1] = S(1).Clone()
		s.ro[a[0]] = s.ro[a[1]]
	case "Equal":
		return []int{b2i(R.Equal(S(1)))}
	case "IsSubSet":
		return []int{b2i(R.IsSubSet(S(1)))}
	case "IsSupperSet":
		return []int{b2i(R.IsSupperSet(S(1)))}
	case "Difference":
		s.reg[a[0]-1] = S(1).Difference(S(2))
	case "SymmetricDifference":
		s.reg[a[0]-1] = S(1).SymmetricDifference(S(2))
	case "Intersection":
		s.reg[a[0]-1] = S(1).Intersection(S(2))
	case "Union":
		var o []set.Set[T]
		for i := range a[2:] {
			o = append(o, S(i+2))
		}
		s.reg[a[0]-1] = S(1).Union(o...)
	case "Range":
		var r []int
		R.Range(func(v T) bool { r = append(r, s.d(v)); return !(a[1] > 0 && len(r) == a[1]) })
		return r
	default:
		panic(op)
	}
	return nil
}

// the chaining methods return the container itself
func itself(a, b any) {
	if reflect.ValueOf(a).Pointer() != reflect.ValueOf(b).Pointer() {
		panic("returned container differs")
	}
}
func (s *setT[T]) Proj() (p [][]int) {
	for _, r := range s.reg {
		var v []int
		for _, x := range r.Slice() {
			v = append(v, s.d(x))
		}
		p = append(p, sorted(v), []int{r.Len()})
	}
	return
}
func (s *setT[T]) Rand(r *rand.Rand) (string, []int) {
	n := len(s.reg)
	R := func() int { return 1 + r.Intn(n) }
	x := 1 + r.Intn(lim(pick(r, 4, 8), 120, 3000))
	W := R() // writable
	if s.ro[W] {
		return "New", []int{W}
	}
	if *big == 2 { // registers of very different sizes
		if r.Intn(5) == 0 {
			return "New", []int{W}
		}
		if len(s.reg[W-1]) == 0 && r.Intn(2) == 0 {
			a := []int{W}
			for i := pick(r, 3, 100, 700, 1500); i > 0; i-- {
				a = append(a, 1+r.Intn(3000))
			}
			return "Push", a
		}
		if r.Intn(4) == 0 {
			a := r.Perm(n)[:2+r.Intn(n-1)]
			for i := range a {
				a[i]++
			}
			return "Union", a
		}
	}
	switch r.Intn(lim(18, 17)) {
	case 17:
		return "Nil", []int{R()}
	case 16:
		return "RangeRemove", []int{R(), pick(r, 0, 1, 2, 3, lim(1, 20, 200))}
	case 0, 1, 2:
		return "Insert", []int{W, x}
	case 3:
		a := []int{W}
		for i := r.Intn(lim(5, 100, pick(r, 5, 200, 1500))); i > 0; i-- {
			a = append(a, 1+r.Intn(lim(8, 120, 3000)))
		}
		return "Push", a
	case 4:
		return pickS(r, "Remove", "ContainAndRemove"), []int{R(), x}
	case 5:
		return "Contain", []int{R(), x}
	case 6:
		return pickS(r, "IsEmpty", "IsEmpty", "Clear", "New"), []int{R()}
	case 7:
		return "CopyFrom", []int{W, R()}
	case 8:
		return "Clone", []int{R(), R()}
	case 9, 10:
		return pickS(r, "Equal", "IsSubSet", "IsSupperSet"), []int{R(), R()}
	case 11, 12, 13:
		return pickS(r, "Difference", "SymmetricDifference", "Intersection"), []int{R(), R(), R()}
	case 14:
		a := []int{R(), R()}
		for i := r.Intn(4); i > 0; i-- {
			a = append(a, R())
		}
		if *big == 2 && r.Intn(2) == 0 { // of very different sizes, smallest first or last
			x := a[1:]
			sort.Slice(x, func(i, j int) bool { return len(s.reg[x[i]-1]) < len(s.reg[x[j]-1]) })
			if r.Intn(2) == 0 {
				slices.Reverse(x)
			}
		}
		return "Union", a
	}
	return "Range", []int{R(), r.Intn(4)}
}

// ---------------------------------------------------------------- genmap

type gmT[K comparable, V any] struct {
	reg []genmap.GenMap[K, V]
	ek  func(int) K
	dk  func(K) int
	ev  func(int) V
	dv  func(V) int
	ro  map[int]bool // registers holding the nil map
}
type gmSys struct{ setAny }

func (s *gmSys) Reset(cfg []int) {
	switch cfg[0] {
	case 0:
		s.setAny = &gmT[int, int]{ek: from0, dk: to1, ev: idf, dv: idf}
	case 1:
		s.setAny = &gmT[string, string]{ek: from0s, dk: to1s, ev: itoa, dv: atoi}
	default:
		s.setAny = &gmT[pair, *int]{ek: func(i int) pair { return pair{i - 1, i*i - 1} }, dk: func(p pair) int { return p.a + 1 },
			ev: func(i int) *int {
				if i == 0 {
					return nil
				}
				return &i
			}, dv: func(p *int) int {
				if p == nil {
					return 0
				}
				return *p
			}}
	}
	s.setAny.Reset(cfg)
}
func (s *gmSys) RandCfg(r *rand.Rand) []int     { return []int{r.Intn(3), 2 + r.Intn(3)} }
func (s *gmT[K, V]) RandCfg(r *rand.Rand) []int { return nil }
func (s *gmT[K, V]) Reset(cfg []int) {
	s.reg, s.ro = nil, map[int]bool{}
	for i := 0; i < cfg[1]; i++ {
		s.reg = append(s.reg, genmap.New[K, V]())
	}
}
func (s *gmT[K, V]) Exec(op string, a []int) []int {
	R := s.reg[a[0]-1]
	res := func(v V, ok bool) []int { return []int{s.dv(v), b2i(ok)} }
	switch op {
	case "Nil":
		s.reg[a[0]-1] = genmap.From[K, V](nil)
		s.ro[a[0]] = true
	case "StoreN":
		for i := 0; i < a[2]; i++ {
			itself(R, R.Store(s.ek(a[1]+i), s.ev(a[3])))
		}
	case "RangeDelete":
		var r []int
		all := R.Range(func(k K, v V) bool {
			r = append(r, s.dk(k))
			itself(R, R.Delete(k))
			return !(a[1] > 0 && len(r) == a[1]) && len(r) < 5000
		})
		return append(r, b2i(all))
	case "Store":
		itself(R, R.Store(s.ek(a[1]), s.ev(a[2])))
	case "Load":
		return res(R.Load(s.ek(a[1])))
	case "Delete":
		itself(R, R.Delete(s.ek(a[1])))
	case "LoadOrStore":
		return res(R.LoadOrStore(s.ek(a[1]), s.ev(a[2])))
	case "LoadOrStoreFunc":
		n := 0
		v, ok := R.LoadOrStoreFunc(s.ek(a[1]), func() V { n++; return s.ev(a[2]) })
		return append(res(v, ok), n)
	case "LoadOrStoreFuncFx":
		n := 0
		v, ok := R.LoadOrStoreFunc(s.ek(a[1]), func() V {
			n++
			switch a[3] {
			case 1:
				itself(R, R.Store(s.ek(a[4]), s.ev(a[5])))
			case 2:
				itself(R, R.Delete(s.ek(a[4])))
			case 3:
				itself(R, R.Clear())
			}
			return s.ev(a[2])
		})
		return append(res(v, ok), n)
	case "LoadAndDelete":
		return res(R.LoadAndDelete(s.ek(a[1])))
	case "LoadAndStore":
		return res(R.LoadAndStore(s.ek(a[1]), s.ev(a[2])))
	case "Clear":
		itself(R, R.Clear())
	case "New":
		s.reg[a[0]-1] = genmap.New[K, V]()
		delete(s.ro, a[0])
	case "Clone":
		s.reg[a[0]-1] = s.reg[a[1]-1].Clone()
		delete(s.ro, a[0])
	case "Share":
		s.reg[a[0]-1] = genmap.From(s.reg[a[1]-1].Map())
		s.ro[a[0]] = s.ro[a[1]]
	case "CopyTo":
		itself(R, R.CopyTo(s.reg[a[1]-1]))
	case "CopyToRaw":
		itself(R, R.CopyToRaw(s.reg[a[1]-1]))
	case "CopyFrom":
		itself(R, R.CopyFrom(s.reg[a[1]-1]))
	case "CopyFromRaw":
		itself(R, R.CopyFromRaw(s.reg[a[1]-1]))
	case "EqualFunc":
		return []int{b2i(R.EqualFunc(s.reg[a[1]-1], func(x, y V) bool { return s.dv(x) == s.dv(y) }))}
	case "EqualMod":
		return []int{b2i(R.EqualFunc(s.reg[a[1]-1], func(x, y V) bool { return s.dv(x)%2 == s.dv(y)%2 }))}
	case "DeleteFunc":
		R.DeleteFunc(func(k K, v V) bool { return s.dv(v) >= a[1] })
	case "Range":
		var r []int
		all := R.Range(func(k K, v V) bool { r = append(r, s.dk(k)); return !(a[1] > 0 && len(r) == a[1]) })
		return append(r, b2i(all))
	default:
		panic(op)
	}
	return nil
}
func (s *gmT[K, V]) Proj() (p [][]int) {
	for _, r := range s.reg {
		var ks, vs, k2, v2 []int
		r.Range(func(k K, v V) bool { ks = append(ks, s.dk(k)); return true })
		ks = sorted(ks)
		for _, k := range ks {
			v, ok := r.Load(s.ek(k))
			if !ok {
				vs = append(vs, -6)
			} else {
				vs = append(vs, s.dv(v))
			}
		}
		for _, k := range r.Keys() {
			k2 = append(k2, s.dk(k))
		}
		for _, v := range r.Values() {
			v2 = append(v2, s.dv(v))
		}
		p = append(p, ks, vs, []int{r.Len()}, sorted(k2), sorted(v2))
	}
	return
}
func (s *gmT[K, V]) Rand(r *rand.Rand) (string, []int) {
	R := func() int { return 1 + r.Intn(len(s.reg)) }
	k, v := 1+r.Intn(lim(5, 60, 1500)), r.Intn(5)
	W := R() // writable
	if s.ro[W] {
		return pickS(r, "New", "Clone"), []int{W, W}
	}
	if *big == 2 && r.Intn(6) == 0 {
		return "StoreN", []int{W, k, 100 + r.Intn(500), v}
	}
	switch r.Intn(lim(16, 15)) {
	case 15:
		return "Nil", []int{R()}
	case 14:
		return "RangeDelete", []int{R(), pick(r, 0, 1, 2, 3, lim(1, 20, 200))}
	case 0, 1, 2, 3, 4:
		return pickS(r, "Store", "LoadOrStore", "LoadOrStoreFunc", "LoadAndStore"), []int{W, k, v}
	case 5, 6:
		if r.Intn(4) == 0 {
			k2 := k
			if r.Intn(2) == 0 {
				k2 = 1 + r.Intn(lim(5, 60, 1500))
			}
			return "LoadOrStoreFuncFx", []int{W, k, v, 1 + r.Intn(lim(3, 2)), k2, r.Intn(5)}
		}
		return pickS(r, "Load", "Delete", "LoadAndDelete"), []int{R(), k}
	case 7:
		if r.Intn(lim(1, 6)) > 0 {
			return "Store", []int{W, k, v}
		}
		return pickS(r, "Clear", "New"), []int{R()}
	case 8:
		return pickS(r, "Clone", "Share"), []int{R(), R()}
	case 9, 10:
		if r.Intn(2) == 0 {
			return pickS(r, "CopyTo", "CopyToRaw"), []int{R(), W}
		}
		return pickS(r, "CopyFrom", "CopyFromRaw"), []int{W, R()}
	case 11:
		return pickS(r, "EqualFunc", "EqualMod"), []int{R(), R()}
	case 12:
		if r.Intn(lim(1, 4)) > 0 {
			return "Store", []int{W, k, v}
		}
		return "DeleteFunc", []int{R(), r.Intn(6)}
	}
	return "Range", []int{R(), r.Intn(4)}
}
