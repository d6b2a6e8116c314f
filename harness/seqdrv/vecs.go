package main

import (
	"math"
	"math/rand"

	"github.com/zijiren233/gencontainer/vec"
)

type vecT[T any] struct {
	cfg  []int
	conf []vec.VecConf[T]
	e    func(int) T
	d    func(T) int
	reg  []*vec.Vec[T]
	hold [][]T
	tags bool // distinguishable equal elements
	nan  bool
}

type vecSys struct {
	p string
	setAny
}

type myInt int
type myStr string
type myF float64
type rec struct{ key, id int }

func table[T comparable](t []T) (func(int) T, func(T) int) {
	return func(v int) T { return t[key(v)-1] }, func(x T) int {
		for i, y := range t {
			if x == y {
				return 100 * (i + 1)
			}
		}
		var zero T
		if x == zero {
			return 0
		}
		return -5
	}
}
func ptrs[T any](t []T) (func(int) *T, func(*T) int) {
	m, back := map[int]*T{}, map[*T]int{}
	return func(v int) *T {
			if m[v] == nil {
				x := t[key(v)-1]
				m[v] = &x
				back[&x] = v
				m[v] = &x
			}
			return m[v]
		}, func(p *T) int {
			if p == nil {
				return 0
			}
			if v, ok := back[p]; ok {
				return v
			}
			return -5
		}
}
func floats[T ~float32 | ~float64](t []T) (func(int) T, func(T) int) {
	return func(v int) T {
			if key(v) == 0 {
				return T(math.NaN())
			}
			return t[key(v)-1]
		}, func(x T) int {
			if x != x {
				return 1
			}
			for i, y := range t {
				if x == y {
					return 100 * (i + 1)
				}
			}
			return -5
		}
}

const nRanks = 8

var (
	ti8    = []int8{-128, -127, -2, -1, 0, 5, 126, 127}
	ti64   = []int64{math.MinInt64, math.MinInt64 + 1, -1 << 33, -1, 1, 1 << 33, math.MaxInt64 - 1, math.MaxInt64}
	tint   = []int{math.MinInt64, -1 << 33, -10, -1, 0, 10, 1 << 33, math.MaxInt64}
	tu8    = []uint8{0, 2, 3, 127, 128, 129, 254, 255}
	tu64   = []uint64{1, 2, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}
	tu16   = []uint16{0, 2, 3, 255, 256, 1 << 14, 1 << 15, 1<<16 - 1}
	tf64   = []float64{math.Inf(-1), -math.MaxFloat64, -1.5, -math.SmallestNonzeroFloat64, math.SmallestNonzeroFloat64, 1.5, math.MaxFloat64, math.Inf(1)}
	tf32   = []float32{float32(math.Inf(-1)), -math.MaxFloat32, -2, -1, 0, 2, math.MaxFloat32, float32(math.Inf(1))}
	tstr   = []string{"A", "a", "a1", "a2", "a10", "a10b2", "a10b11", "b"}
	ti16   = []int16{-1 << 15, -1<<15 + 1, -256, -1, 0, 255, 256, 1<<15 - 1}
	ti32   = []int32{-1 << 31, -1<<31 + 1, -1 << 16, -1, 0, 1 << 16, 1<<31 - 2, 1<<31 - 1}
	tu     = []uint{0, 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}
	tu32   = []uint32{0, 1, 255, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
	tmystr = []myStr{"", "1", "2", "10", "x", "x2", "x10", "y"}
	tmyf   = []myF{-9.5, -5, -0.25, 0, 0.25, 3, 5, 1e300}
	tmy    = []myInt{-9, -5, -3, -1, 1, 3, 5, 9}
	kinds  = 25
)

func (s *vecSys) Reset(cfg []int) {
	mk(s, cfg[1])
	s.setAny.Reset(cfg)
}
func mk(s *vecSys, kind int) {
	switch kind {
	case 0:
		s.setAny = &vecT[int]{e: idf, d: idf}
	case 1:
		e, d := table(ti8)
		s.setAny = &vecT[int8]{e: e, d: d}
	case 2:
		e, d := table(tu8)
		s.setAny = &vecT[uint8]{e: e, d: d}
	case 3:
		e, d := floats(tf64)
		s.setAny = &vecT[float64]{e: e, d: d, nan: true}
	case 4:
		e, d := table(tstr)
		s.setAny = &vecT[string]{e: e, d: d}
	case 5:
		e, d := ptrs(tint)
		s.setAny = &vecT[*int]{e: e, d: d, tags: true}
	case 6:
		e, d := ptrs(tstr)
		s.setAny = &vecT[*string]{e: e, d: d, tags: true}
	case 7:
		e, d := floats(tf32)
		s.setAny = &vecT[float32]{e: e, d: d, nan: true}
	case 8:
		e, d := table(tu64)
		s.setAny = &vecT[uint64]{e: e, d: d}
	case 9:
		e, d := ptrs(tf64)
		s.setAny = &vecT[*float64]{e: e, d: d, tags: true}
	case 10:
		e, d := table(tmy)
		s.setAny = &vecT[myInt]{e: e, d: d}
	case 11: // no default order: comparison functions given at creation
		s.setAny = &vecT[rec]{e: func(v int) rec { return rec{key(v), v} }, d: func(r rec) int { return r.id }, tags: true,
			conf: []vec.VecConf[rec]{
				vec.WithCmpLess(func(a, b rec) bool { return a.key < b.key }),
				vec.WithCmpEqual(func(a, b rec) bool { return a.key == b.key })}}
	case 12:
		e, d := table(ti64)
		s.setAny = &vecT[int64]{e: e, d: d}
	case 13:
		e, d := ptrs(tu16)
		s.setAny = &vecT[*uint16]{e: e, d: d, tags: true}
	case 14:
		e, d := table(ti16)
		s.setAny = &vecT[int16]{e: e, d: d}
	case 15:
		e, d := table(ti32)
		s.setAny = &vecT[int32]{e: e, d: d}
	case 16:
		e, d := table(tu)
		s.setAny = &vecT[uint]{e: e, d: d}
	case 17:
		e, d := table(tu16)
		s.setAny = &vecT[uint16]{e: e, d: d}
	case 18:
		e, d := table(tu32)
		s.setAny = &vecT[uint32]{e: e, d: d}
	case 19:
		e, d := table(tint)
		s.setAny = &vecT[int]{e: e, d: d}
	case 20:
		e, d := ptrs(ti32)
		s.setAny = &vecT[*int32]{e: e, d: d, tags: true}
	case 21:
		e, d := ptrs(tu64)
		s.setAny = &vecT[*uint64]{e: e, d: d, tags: true}
	case 22:
		e, d := table(tmystr)
		s.setAny = &vecT[myStr]{e: e, d: d}
	case 23:
		e, d := floats(tmyf)
		s.setAny = &vecT[myF]{e: e, d: d, nan: true}
	case 24:
		e, d := ptrs(tmystr)
		s.setAny = &vecT[*myStr]{e: e, d: d, tags: true}
	default:
		panic("kind")
	}
}
func (s *vecSys) RandCfg(r *rand.Rand) []int {
	switch s.p {
	case "C17":
		return []int{17, pick(r, 0, 0, 4, 5, 11), 2, 0}
	case "C18":
		if *big > 0 && r.Intn(2) == 0 {
			return []int{18, pick(r, 5, 6, 9, 11, 20, 24), 2, 0}
		}
		return []int{18, r.Intn(kinds), 2, 0}
	}
	return []int{19, pick(r, 0, 0, 5, 11), 2 + r.Intn(2), 2}
}
func (s *vecT[T]) RandCfg(r *rand.Rand) []int { return nil }
func (s *vecT[T]) Reset(cfg []int) {
	s.cfg, s.reg, s.hold = cfg, nil, make([][]T, cfg[3])
	for i := 0; i < cfg[2]; i++ {
		s.reg = append(s.reg, vec.New(s.conf...))
	}
}
func (s *vecT[T]) es(a []int) (r []T) {
	for _, x := range a {
		r = append(r, s.e(x))
	}
	return
}
func (s *vecT[T]) ds(t []T) (r []int) {
	for _, x := range t {
		r = append(r, s.d(x))
	}
	return
}
func (s *vecT[T]) less(c int) func(a, b T) bool {
	f := less3(c)
	return func(a, b T) bool { return f(s.d(a), s.d(b)) }
}
func (s *vecT[T]) eq(c int) func(a, b T) bool {
	if c == 3 {
		return func(a, b T) bool { return key(s.d(a))%3 == key(s.d(b))%3 }
	}
	return func(a, b T) bool { return key(s.d(a)) == key(s.d(b)) }
}
func (s *vecT[T]) is(c, x int) func(T) bool {
	eq, t := s.eq(c), s.e(x)
	return func(y T) bool { return eq(y, t) }
}
func (s *vecT[T]) opt(v T, ok bool) []int {
	if !ok {
		var zero T
		z := s.d(zero)
		w := s.d(v)
		if w == z || s.cfg[1] != 0 {
			w = 0
		}
		return []int{0, w}
	}
	return []int{1, s.d(v)}
}

func (s *vecT[T]) Exec(op string, a []int) (out []int) {
	v := s.reg[a[0]-1]
	switch op {
	case "Push":
		itself(v, v.Push(s.es(a[1:])...))
	case "PushSelf":
		itself(v, v.Push(v.Slice()...))
	case "Load":
		itself(v, v.Clear().Push(s.es(a[1:])...))
	case "Pop":
		return s.opt(v.Pop())
	case "Remove":
		return s.opt(v.Remove(a[1]))
	case "ConpareAndRemove":
		return s.opt(v.ConpareAndRemove(a[1], s.e(a[2])))
	case "Get":
		return s.opt(v.Get(a[1]))
	case "Set":
		return []int{b2i(v.Set(a[1], s.e(a[2])))}
	case "First":
		return s.opt(v.First())
	case "Last":
		return s.opt(v.Last())
	case "Swap":
		v.Swap(a[1], a[2])
	case "Cut":
		return s.ds(v.Cut(a[1], a[2]))
	case "CutH":
		s.hold[a[3]-1] = v.Cut(a[1], a[2])
	case "SliceCut":
		return s.ds(v.SliceCut(a[1], a[2]))
	case "Delete":
		if guard(func() { v.Delete(a[1], a[2]) }) != nil {
			return []int{panicExpected}
		}
	case "Insert":
		if guard(func() { v.Insert(a[1], s.es(a[2:])...) }) != nil {
			return []int{panicExpected}
		}
	case "InsertSelf":
		itself(v, v.Insert(a[1], v.Slice()[a[2]:a[3]]...))
	case "Replace":
		if guard(func() { v.Replace(a[1], a[2], s.es(a[3:])...) }) != nil {
			return []int{panicExpected}
		}
	case "ReplaceSelf":
		v.Replace(a[1], a[2], v.Slice()[a[3]:a[4]]...)
	case "Reverse":
		itself(v, v.Reverse())
	case "Compact":
		itself(v, v.Compact())
	case "CompactFunc":
		v.CompactFunc(s.eq(a[1]))
	case "Clear":
		itself(v, v.Clear())
	case "New":
		s.reg[a[0]-1] = vec.New(s.conf...)
	case "Grow":
		itself(v, v.Grow(a[1]))
		if v.Cap()-v.Len() < a[1] {
			return []int{-8}
		}
	case "Clip":
		itself(v, v.Clip())
	case "Range":
		v.Range(func(i int, x T) bool {
			if i != len(out) {
				out = append(out, -9)
			}
			out = append(out, s.d(x))
			return !(a[1] > 0 && len(out) == a[1])
		})
		return out
	case "Clone":
		s.reg[a[1]-1] = v.Clone()
	case "SplitOff":
		s.reg[a[1]-1] = v.SplitOff(a[2])
	case "CloneToSlice":
		s.hold[a[1]-1] = v.CloneToSlice()
	case "SetHold":
		if h := s.hold[a[0]-1]; a[1] < len(h) {
			h[a[1]] = s.e(a[2])
		}
	case "SetLess":
		itself(v, v.SetCmpLess(s.less(a[1])))
	case "SetEqual":
		itself(v, v.SetCmpEqual(s.eq(a[1])))
	case "SetCmp":
		itself(v, v.SetCmpLess(s.less(a[1])).SetCmpEqual(s.eq(a[1])))
	case "Sort":
		return s.ds(v.Sort().Slice())
	case "SortFunc":
		return s.ds(v.SortFunc(s.less(a[1]), s.eq(a[1])).Slice())
	case "SortStable":
		return s.ds(v.SortStable().Slice())
	case "SortStableFunc":
		return s.ds(v.SortStableFunc(s.less(a[1]), s.eq(a[1])).Slice())
	case "IsSorted":
		return []int{b2i(v.IsSorted())}
	case "IsSortedFunc":
		return []int{b2i(v.IsSortedFunc(s.less(a[1]), s.eq(a[1])))}
	case "BinarySearch":
		i, ok := v.BinarySearch(s.e(a[1]))
		return []int{i, b2i(ok)}
	case "Search":
		return []int{v.Search(s.e(a[1]))}
	case "SearchAll":
		return v.SearchAll(s.e(a[1]))
	case "Contains":
		return []int{b2i(v.Contains(s.e(a[1])))}
	case "Max":
		if v.Len() > 0 {
			return []int{s.d(v.Max())}
		}
	case "Min":
		if v.Len() > 0 {
			return []int{s.d(v.Min())}
		}
	case "Compare":
		return []int{v.Compare(*s.reg[a[1]-1])}
	case "EqualVec":
		return []int{b2i(v.EqualVec(*s.reg[a[1]-1]))}
	case "EqualSlice":
		return []int{b2i(v.EqualSlice(s.reg[a[1]-1].Slice()))}
	case "BinarySearchFunc":
		le, eq := s.less(a[2]), s.eq(a[2])
		i, ok := v.BinarySearchFunc(s.e(a[1]), func(x, t T) int {
			if le(x, t) {
				return -1
			} else if eq(x, t) {
				return 0
			}
			return 1
		})
		return []int{i, b2i(ok)}
	case "SearchFunc":
		return []int{v.SearchFunc(s.is(a[2], a[1]))}
	case "SearchAllFunc":
		return v.SearchAllFunc(s.is(a[2], a[1]))
	case "ContainsFunc":
		return []int{b2i(v.ContainsFunc(s.is(a[2], a[1])))}
	case "MaxFunc":
		if v.Len() > 0 {
			return []int{s.d(v.MaxFunc(s.less(a[1]), s.eq(a[1])))}
		}
	case "MinFunc":
		if v.Len() > 0 {
			return []int{s.d(v.MinFunc(s.less(a[1]), s.eq(a[1])))}
		}
	case "CompareFunc":
		return []int{v.CompareFunc(*s.reg[a[1]-1], s.less(a[2]), s.eq(a[2]))}
	case "EqualVecFunc":
		return []int{b2i(v.EqualVecFunc(*s.reg[a[1]-1], s.eq(a[2])))}
	case "EqualSliceFunc":
		return []int{b2i(v.EqualSliceFunc(s.reg[a[1]-1].Slice(), s.eq(a[2])))}
	case "LessAt":
		return []int{b2i(v.Less(a[1], a[2])), b2i(v.Equal(a[1], a[2]))}
	default:
		panic("op " + op)
	}
	return nil
}
func (s *vecT[T]) Proj() (p [][]int) {
	for _, v := range s.reg {
		p = append(p, s.ds(v.Slice()), []int{v.Len(), b2i(v.IsEmpty())})
	}
	if s.cfg[0] == 19 {
		for _, h := range s.hold {
			p = append(p, s.ds(h))
		}
		for _, v := range s.reg {
			var q []int
			for _, x := range [][2]int{{100, 200}, {200, 100}, {400, 100}, {100, 100}} {
				a, b := s.e(x[0]), s.e(x[1])
				q = append(q, b2i(v.CmpLess(a, b)), b2i(v.CmpEqual(a, b)))
			}
			p = append(p, q)
		}
	}
	return
}

func (s *vecT[T]) val(r *rand.Rand) int {
	if s.cfg[1] == 0 {
		if s.cfg[0] == 18 {
			return r.Intn(pick(r, 5, 50, 900))
		}
		return r.Intn(6)
	}
	v := 100 * (1 + r.Intn(pick(r, 3, nRanks)))
	if s.tags {
		v += r.Intn(lim(4, 50, 99))
	}
	return v
}
func (s *vecT[T]) vals(r *rand.Rand, n int) (a []int) {
	for i := 0; i < n; i++ {
		a = append(a, s.val(r))
	}
	return
}

func (s *vecT[T]) Rand(r *rand.Rand) (string, []int) {
	R := 1
	if s.cfg[0] == 19 {
		R = 1 + r.Intn(len(s.reg))
	}
	n := s.reg[R-1].Len()
	ix := func() int { return hot(r, n+3) - 1 }
	iv := func() (int, int) { // valid interval
		i := hot(r, n+1)
		return i, i + hot(r, n-i+1)
	}
	j, k := iv()
	p, q := iv()
	room := n < lim(14, 200, 2500)
	switch s.cfg[0] {
	case 17:
		if *big > 0 && (n == 0 || n < 30 && r.Intn(3) == 0) {
			return "Push", append([]int{R}, s.vals(r, 20+r.Intn(lim(0, 130, 1200)))...)
		}
		for {
			switch r.Intn(22) {
			case 0, 1, 2:
				if room {
					return "Push", append([]int{R}, s.vals(r, pick(r, 0, 1, 1, 2, 3, lim(3, 12, 300)))...)
				}
			case 3:
				if n < lim(8, 100, 1100) {
					return "PushSelf", []int{R}
				}
			case 4:
				return pickS(r, "Pop", "First", "Last", "Reverse"), []int{R}
			case 5:
				return pickS(r, "Compact", "Compact", "Clear"), []int{R}
			case 6:
				if s.cfg[1] != 0 {
					return "CompactFunc", []int{R, pick(r, 1, 3)}
				}
			case 7:
				return pickS(r, "Remove", "Remove", "Get"), []int{R, ix()}
			case 8:
				return "Set", []int{R, ix(), s.val(r)}
			case 9:
				return "ConpareAndRemove", []int{R, ix(), s.val(r)}
			case 10:
				return pickS(r, "Swap", "SliceCut"), []int{R, ix(), ix()}
			case 11, 12:
				return "Cut", []int{R, ix(), ix()}
			case 13:
				if r.Intn(3) == 0 {
					j, k = ix(), ix()
				}
				return "Delete", []int{R, j, k}
			case 14, 15:
				if room {
					return "Insert", append([]int{R, ix()}, s.vals(r, pick(r, 0, 1, 1, 2, 3, lim(3, 12, 300)))...)
				}
			case 16:
				if n < lim(8, 100, 1100) {
					return "InsertSelf", []int{R, r.Intn(n + 1), j, k}
				}
			case 17:
				if r.Intn(3) == 0 {
					j, k = ix(), ix()
				}
				if room {
					return "Replace", append([]int{R, j, k}, s.vals(r, pick(r, 0, 1, 1, 2, 3, lim(3, 12, 300)))...)
				}
			case 18:
				if n < lim(8, 100, 1100) {
					return "ReplaceSelf", []int{R, j, k, p, q}
				}
			case 19:
				return "SplitOff", []int{R, 2, ix()}
			case 20:
				if r.Intn(2) == 0 {
					return "Clip", []int{R}
				}
				return "Grow", []int{R, pick(r, 0, 1, 1, 2, 3, r.Intn(lim(10, 300, 5000)), lim(30, 600, 6000))}
			case 21:
				return "Range", []int{R, r.Intn(4)}
			}
		}
	case 18:
		hasNaN := false
		for _, v := range s.reg {
			for _, x := range v.Slice() {
				hasNaN = hasNaN || s.nan && key(s.d(x)) == 0
			}
		}
		if n == 0 || r.Intn(9) == 0 {
			Q := 1 + r.Intn(2)
			v := s.vals(r, r.Intn(lim(pick(r, 5, 20), 300, pick(r, 100, 1500))))
			if *big == 2 && Q == 1 {
				v = append(v, s.vals(r, r.Intn(pick(r, 1, 700)))...)
			}
			if s.nan && Q == 1 && r.Intn(2) == 0 {
				for i := range v {
					if r.Intn(3) == 0 {
						v[i] = 1
					}
				}
			}
			if Q == 2 && n > 0 && r.Intn(2) == 0 { // a near copy
				v = s.ds(s.reg[0].Slice())
				if m := len(v); m > 0 && r.Intn(2) == 0 {
					v = v[:m-1]
				} else if r.Intn(2) == 0 {
					v[r.Intn(m)] = s.val(r)
				}
			}
			return "Load", append([]int{Q}, v...)
		}
		if hasNaN {
			if r.Intn(3) == 0 {
				return "Load", []int{1}
			}
			return pickS(r, "Sort", "SortStable"), []int{R}
		}
		switch r.Intn(18) {
		case 14:
			return pickS(r, "SearchFunc", "SearchAllFunc", "ContainsFunc"), []int{R, s.val(r), 1 + r.Intn(3)}
		case 15:
			return pickS(r, "MaxFunc", "MinFunc"), []int{R, 1 + r.Intn(3)}
		case 16:
			return pickS(r, "CompareFunc", "EqualVecFunc", "EqualSliceFunc"), []int{R, 2, 1 + r.Intn(3)}
		case 17:
			c := 1 + r.Intn(3)
			for d := 1; d <= 3; d++ { // the function it is sorted by, if any
				if s.reg[0].IsSortedFunc(s.less(d), s.eq(d)) && r.Intn(2) == 0 {
					c = d
				}
			}
			return "BinarySearchFunc", []int{R, s.val(r), c}
		case 0:
			return "Sort", []int{R}
		case 1:
			return "SortStable", []int{R}
		case 2:
			return pickS(r, "SortFunc", "SortStableFunc", "IsSortedFunc"), []int{R, 1 + r.Intn(3)}
		case 3:
			return "IsSorted", []int{R}
		case 4, 5, 6:
			return "BinarySearch", []int{R, s.val(r)}
		case 7, 8:
			return pickS(r, "Search", "SearchAll", "Contains"), []int{R, s.val(r)}
		case 9:
			return pickS(r, "Max", "Min"), []int{R}
		case 10, 11:
			return pickS(r, "Compare", "EqualVec", "EqualSlice"), []int{R, 2}
		case 12:
			return "LessAt", []int{R, r.Intn(n), r.Intn(n)}
		}
		c := 1 + r.Intn(3)
		if r.Intn(3) > 0 {
			return "Sort", []int{R}
		}
		return "SetCmp", []int{R, c}
	}
	H := 1 + r.Intn(len(s.hold))
	Q := 1 + r.Intn(len(s.reg))
	for {
		switch r.Intn(16) {
		case 0, 1, 2:
			if n < lim(7, 60, 700) {
				return "Push", append([]int{R}, s.vals(r, lim(pick(r, 1, 2), 1+r.Intn(40), 1+r.Intn(500)))...)
			}
		case 3, 4:
			if Q != R {
				return "Clone", []int{R, Q}
			}
		case 5:
			if Q != R {
				return "SplitOff", []int{R, Q, r.Intn(n + 1)}
			}
		case 6:
			return "CloneToSlice", []int{R, H}
		case 7, 8:
			return "CutH", []int{R, j, k, H}
		case 9:
			if n > 0 {
				return "Set", []int{R, r.Intn(n), s.val(r)}
			}
		case 10:
			if m := len(s.hold[H-1]); m > 0 {
				return "SetHold", []int{H, r.Intn(m), s.val(r)}
			}
		case 11:
			return "SetLess", []int{R, 1 + r.Intn(3)}
		case 12:
			return "SetEqual", []int{R, pick(r, 1, 3)}
		case 13:
			return pickS(r, "Reverse", "Clip", "Clear", "Pop"), []int{R}
		case 14:
			if n < lim(7, 60, 700) {
				return "Insert", []int{R, r.Intn(n + 1), s.val(r)}
			}
		case 15:
			return "Delete", []int{R, j, k}
		}
	}
}
