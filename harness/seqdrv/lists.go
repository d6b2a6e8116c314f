package main

import (
	"math/rand"
	"sort"
	"strconv"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/ring"
)

// ---------------------------------------------------------------- dllist

type dlE = dllist.Element[int]
type dlSys struct {
	p     string
	mode  int
	lists []*dllist.Dllist[int]
	els   []*dlE
	ids   map[*dlE]int
	dead  map[int]bool
	rng   *rand.Rand // order of reading
}

func (s *dlSys) Reset(cfg []int) {
	s.mode = cfg[0]
	s.lists = nil
	for i := 0; i < cfg[1]; i++ {
		if cfg[2] == 1 {
			s.lists = append(s.lists, new(dllist.Dllist[int]))
		} else {
			s.lists = append(s.lists, dllist.New[int]())
		}
	}
	s.els, s.ids, s.dead = nil, map[*dlE]int{}, map[int]bool{}
	s.rng = rand.New(rand.NewSource(int64(cfg[1]) + opCount.Load()))
}
func (s *dlSys) id(e *dlE) int {
	if e == nil {
		return 0
	}
	if i, ok := s.ids[e]; ok {
		return i
	}
	return -2
}
func (s *dlSys) reg(e *dlE) int {
	if e == nil {
		return 0
	}
	if i, ok := s.ids[e]; ok {
		return i
	}
	s.els = append(s.els, e)
	s.ids[e] = len(s.els)
	return len(s.els)
}
func (s *dlSys) fwd(l *dllist.Dllist[int]) (r []*dlE) {
	for e := l.Front(); e != nil && len(r) < len(s.els)+1000; e = e.Next() {
		r = append(r, e)
	}
	return
}
func (s *dlSys) regNew(l *dllist.Dllist[int]) (vals []int) {
	for _, e := range s.fwd(l) {
		if _, ok := s.ids[e]; !ok {
			s.reg(e)
			vals = append(vals, e.Value)
		}
	}
	return
}
func key(v int) int {
	if v < 0 {
		return -((-v + 99) / 100)
	}
	return v / 100
}
func less3(ord int) func(a, b int) bool {
	switch ord {
	case 1:
		return func(a, b int) bool { return key(a) < key(b) }
	case 2:
		return func(a, b int) bool { return key(a) > key(b) }
	}
	return func(a, b int) bool { return key(a)%3 < key(b)%3 }
}

func (s *dlSys) Exec(op string, a []int) []int {
	L := func() *dllist.Dllist[int] { return s.lists[a[0]-1] }
	E := func(i int) *dlE { return s.els[a[i]-1] }
	switch op {
	case "PushFront":
		return []int{s.reg(L().PushFront(a[1]))}
	case "PushBack":
		return []int{s.reg(L().PushBack(a[1]))}
	case "InsBefore":
		return []int{s.reg(L().InsertBefore(a[1], E(2)))}
	case "InsAfter":
		return []int{s.reg(L().InsertAfter(a[1], E(2)))}
	case "EInsBefore":
		return []int{s.reg(E(0).InsertBefore(a[1]))}
	case "EInsAfter":
		return []int{s.reg(E(0).InsertAfter(a[1]))}
	case "Remove":
		return []int{L().Remove(E(1))}
	case "ERemove":
		return []int{E(0).Remove()}
	case "Clear":
		itself(L(), L().Clear())
	case "MoveToFront":
		L().MoveToFront(E(1))
	case "MoveToBack":
		L().MoveToBack(E(1))
	case "MoveBefore":
		L().MoveBefore(E(1), E(2))
	case "MoveAfter":
		L().MoveAfter(E(1), E(2))
	case "Swap":
		L().Swap(E(1), E(2))
	case "SetVal":
		E(0).Value = a[1]
	case "PushBackList":
		L().PushBackList(s.lists[a[1]-1])
		s.regNew(L())
	case "PushFrontList":
		L().PushFrontList(s.lists[a[1]-1])
		s.regNew(L())
	case "PushBackListTo":
		L().PushBackListTo(s.lists[a[1]-1], E(2))
		return s.regNew(L())
	case "PushFrontListTo":
		L().PushFrontListTo(s.lists[a[1]-1], E(2))
		return s.regNew(L())
	case "Sort":
		for _, e := range s.fwd(L()) {
			s.dead[s.ids[e]] = true
			delete(s.ids, e)
		}
		L().Sort(less3(a[1]))
		return s.regNew(L())
	case "Get":
		return []int{s.id(L().Get(a[1]))}
	case "Range":
		var r []int
		all := L().Range(func(e *dlE) bool {
			r = append(r, e.Value)
			return !(a[1] > 0 && len(r) == a[1])
		})
		return append(r, b2i(all))
	case "ERange":
		var r []int
		E(0).Range(func(e *dlE) bool {
			r = append(r, e.Value)
			return !(a[1] > 0 && len(r) == a[1])
		})
		return r
	default:
		panic("op " + op)
	}
	return nil
}

func (s *dlSys) Proj() (p [][]int) {
	in := map[int]bool{}
	for _, l := range s.lists {
		var f, bk, g, vals []int
		for _, e := range s.fwd(l) {
			f = append(f, s.id(e))
			vals = append(vals, e.Value)
			in[s.id(e)] = true
		}
		var bv []int
		for e := l.Back(); e != nil && len(bk) < len(s.els)+1000; e = e.Prev() {
			bk = append(bk, s.id(e))
			bv = append(bv, e.Value)
		}
		if s.mode == 2 {
			p = append(p, []int{l.Len()}, vals, bv)
			continue
		}
		g = make([]int, min(l.Len()+2, len(s.els)+6))
		ixs := s.rng.Perm(len(g))
		switch s.rng.Intn(3) {
		case 0:
			sort.Ints(ixs)
		case 1:
			sort.Sort(sort.Reverse(sort.IntSlice(ixs)))
		}
		for _, i := range ixs {
			g[i] = s.id(l.Get(i - 1))
		}
		p = append(p, f, bk, g, []int{l.Len(), s.id(l.Front()), s.id(l.Back())}, l.Slice())
	}
	if s.mode == 2 {
		return
	}
	for i, e := range s.els {
		if s.dead[i+1] || s.mode == 0 && !in[i+1] {
			p = append(p, []int{-1})
		} else {
			p = append(p, []int{s.id(e.Next()), s.id(e.Prev()), e.Value})
		}
	}
	return
}

func (s *dlSys) RandCfg(r *rand.Rand) []int {
	switch s.p {
	case "C10":
		return []int{0, 1 + r.Intn(2), r.Intn(2)}
	case "C11":
		return []int{1, 1 + r.Intn(3), r.Intn(2)}
	}
	return []int{2, 1 + r.Intn(2), r.Intn(2)}
}

func (s *dlSys) Rand(r *rand.Rand) (string, []int) {
	L := 1 + r.Intn(len(s.lists))
	v := r.Intn(1000)
	if s.p == "C12" {
		v = 100*r.Intn(pick(r, 3, 12)) + r.Intn(5)
		n := s.lists[L-1].Len()
		M := 1 + r.Intn(len(s.lists))
		if *big == 2 && n > 5 && n < 300 && r.Intn(3) > 0 {
			return pickS(r, "PushBackList", "PushFrontList"), []int{L, L}
		}
		switch x := r.Intn(20); {
		case x < 9:
			return pickS(r, "PushBack", "PushFront"), []int{L, v}
		case x < 14:
			return "Sort", []int{L, 1 + r.Intn(3)}
		case x < 17 && n+s.lists[M-1].Len() < lim(24, 160, 900):
			return pickS(r, "PushBackList", "PushFrontList"), []int{L, M}
		case x < 19 && M != L && n > 0 && n+s.lists[M-1].Len() < lim(24, 160, 900):
			es := s.fwd(s.lists[L-1])
			return pickS(r, "PushBackListTo", "PushFrontListTo"), []int{L, M, s.id(es[r.Intn(len(es))])}
		case x == 19:
			return "Clear", []int{L}
		}
		return "PushBack", []int{L, v}
	}
	var mine, others []int
	in := map[int]bool{}
	for _, e := range s.fwd(s.lists[L-1]) {
		if id := s.id(e); id > 0 {
			mine = append(mine, id)
			in[id] = true
		}
	}
	for i := range s.els {
		if id := i + 1; !s.dead[id] && !in[id] {
			others = append(others, id)
		}
	}
	stale := s.p == "C11"
	el := func() int {
		if stale && len(others) > 0 && (len(mine) == 0 || r.Intn(2) == 0) {
			return others[r.Intn(len(others))]
		}
		if len(mine) > 0 {
			return mine[hot(r, len(mine))]
		}
		return 0
	}
	if *big == 2 && len(mine) > 5 && len(mine) < 350 && r.Intn(3) > 0 {
		return pickS(r, "PushBackList", "PushFrontList"), []int{L, L}
	}
	grow := len(mine) < lim(3+r.Intn(10), 80, 600)
	if x := r.Intn(10); x < lim(2, 6) && grow || el() == 0 {
		return pickS(r, "PushFront", "PushBack"), []int{L, v}
	}
	for {
		switch r.Intn(18) {
		case 16, 17:
			return "Get", []int{L, r.Intn(len(mine)+2) - 1}
		case 0, 1:
			if grow {
				return pickS(r, "InsBefore", "InsAfter"), []int{L, v, el()}
			}
		case 2:
			if grow {
				return pickS(r, "EInsBefore", "EInsAfter"), []int{el(), v}
			}
		case 3, 4:
			return "Remove", []int{L, el()}
		case 5:
			return "ERemove", []int{el()}
		case 6:
			if r.Intn(lim(4, 40)) == 0 {
				return "Clear", []int{L}
			}
		case 7:
			return pickS(r, "MoveToFront", "MoveToBack"), []int{L, el()}
		case 8, 9:
			return pickS(r, "MoveBefore", "MoveAfter"), []int{L, el(), el()}
		case 10, 11:
			return "Swap", []int{L, el(), el()}
		case 12:
			return "SetVal", []int{el(), v}
		case 13:
			return "Range", []int{L, r.Intn(4)}
		case 14:
			return "ERange", []int{el(), r.Intn(4)}
		case 15:
			M := 1 + r.Intn(len(s.lists))
			if len(mine)+s.lists[M-1].Len() < lim(14, 90, 600) {
				if stale && len(others) > 0 && M != L {
					return pickS(r, "PushBackListTo", "PushFrontListTo"), []int{L, M, others[r.Intn(len(others))]}
				}
				if !stale {
					return pickS(r, "PushBackList", "PushFrontList"), []int{L, M}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- lhashmap

type lhAny interface {
	store(k, v int)
	load(k int) (int, bool)
	remove(k int)
	clear()
	rng(func(k, v int) bool)
	len() int
}
type lhT[K comparable, V any] struct {
	m  *lhashmap.Lhashmap[K, V]
	ek func(int) K
	dk func(K) int
	ev func(int) V
	dv func(V) int
}

func (l lhT[K, V]) store(k, v int) { l.m.Store(l.ek(k), l.ev(v)) }
func (l lhT[K, V]) load(k int) (int, bool) {
	v, ok := l.m.Load(l.ek(k))
	return l.dv(v), ok
}
func (l lhT[K, V]) remove(k int) { l.m.Remove(l.ek(k)) }
func (l lhT[K, V]) clear()       { l.m.Clear() }
func (l lhT[K, V]) len() int     { return l.m.Len() }
func (l lhT[K, V]) rng(f func(k, v int) bool) {
	l.m.Range(func(k K, v V) bool { return f(l.dk(k), l.dv(v)) })
}

func idf(i int) int { return i }
func itoa(i int) string {
	if i == 0 {
		return ""
	}
	return strconv.Itoa(i)
}
func atoi(s string) int {
	if s == "" {
		return 0
	}
	i, err := strconv.Atoi(s)
	if err != nil {
		return -5
	}
	return i
}

// number 1 is the zero value of the key type
func from0(i int) int     { return i - 1 }
func to1(i int) int       { return i + 1 }
func from0s(i int) string { return itoa(i - 1) }
func to1s(s string) int   { return atoi(s) + 1 }

type pair struct{ a, b int }

type lhSys struct{ m lhAny }

func (s *lhSys) Reset(cfg []int) {
	switch cfg[0] {
	case 0:
		s.m = lhT[int, int]{lhashmap.New[int, int](), from0, to1, idf, idf}
	case 1:
		s.m = lhT[string, string]{lhashmap.New[string, string](), from0s, to1s, itoa, atoi}
	default:
		s.m = lhT[pair, []int]{lhashmap.New[pair, []int](lhashmap.WithCap[pair, []int](cfg[1])),
			func(i int) pair { return pair{i - 1, 1 - i} }, func(p pair) int { return p.a + 1 },
			func(i int) []int {
				if i == 0 {
					return nil
				}
				return []int{i}
			}, func(x []int) int {
				if len(x) == 0 {
					return 0
				}
				return x[0]
			}}
	}
}
func (s *lhSys) Exec(op string, a []int) []int {
	switch op {
	case "Store":
		s.m.store(a[0], a[1])
	case "Load":
		v, ok := s.m.load(a[0])
		return []int{b2i(ok), v}
	case "StoreN": // keys a[0], a[0]+1, ...
		for i := 0; i < a[1]; i++ {
			s.m.store(a[0]+i, a[2])
		}
	case "Remove":
		s.m.remove(a[0])
	case "Clear":
		s.m.clear()
	case "Range":
		var r []int
		s.m.rng(func(k, v int) bool { r = append(r, k); return !(a[0] > 0 && len(r) == a[0]) && len(r) < 5000 })
		return r
	default:
		panic(op)
	}
	return nil
}
func (s *lhSys) Proj() [][]int {
	var ks, vs []int
	s.m.rng(func(k, v int) bool { ks = append(ks, k); vs = append(vs, v); return len(ks) < 5000 })
	return [][]int{ks, vs, {s.m.len()}}
}
func (s *lhSys) RandCfg(r *rand.Rand) []int { return []int{r.Intn(3), r.Intn(8)} }
func (s *lhSys) Rand(r *rand.Rand) (string, []int) {
	k := 1 + r.Intn(lim(pick(r, 4, 10), 70, 1500))
	if *big > 0 && r.Intn(2) == 0 {
		var ks []int
		s.m.rng(func(k, _ int) bool { ks = append(ks, k); return len(ks) < 5000 })
		if len(ks) > 0 {
			k = ks[hot(r, len(ks))]
		}
	}
	if *big == 2 && (s.m.len() < 300 && r.Intn(2) == 0 || r.Intn(10) == 0) {
		return "StoreN", []int{k, 100 + r.Intn(pick(r, 500, 1500)), r.Intn(9)}
	}
	switch x := r.Intn(20); {
	case x < lim(8, 12):
		return "Store", []int{k, r.Intn(9)}
	case x < 13:
		return "Load", []int{k}
	case x < 17:
		return "Remove", []int{k}
	case x < 19:
		return "Range", []int{r.Intn(4)}
	}
	if r.Intn(lim(3, 8)) == 0 {
		return "Clear", nil
	}
	return "Load", []int{k}
}

// ---------------------------------------------------------------- ring

type ringSys struct {
	mode int
	els  []*ring.Ring[int]
	ids  map[*ring.Ring[int]]int
}

func (s *ringSys) Reset(cfg []int) {
	s.mode, s.els, s.ids = cfg[0], nil, map[*ring.Ring[int]]int{}
}
func (s *ringSys) id(r *ring.Ring[int]) int {
	if r == nil {
		return 0
	}
	if i, ok := s.ids[r]; ok {
		return i
	}
	return -2
}
func (s *ringSys) add(r *ring.Ring[int]) int {
	if _, ok := s.ids[r]; ok {
		return -3
	}
	s.els = append(s.els, r)
	s.ids[r] = len(s.els)
	return len(s.els)
}
func (s *ringSys) full() (p [][]int) {
	n := len(s.els)
	nx, pv, ln := []int{}, []int{}, []int{}
	for _, e := range s.els {
		nx = append(nx, s.id(e.Next()))
		pv = append(pv, s.id(e.Prev()))
	}
	closed := true // Len and Do terminate only if every Next chain returns
	for _, e := range s.els {
		k := 0
		for q := e.Next(); q != e && k <= n; q = q.Next() {
			k++
		}
		if k > n {
			closed = false
		}
	}
	p = append(p, nx, pv)
	if !closed {
		return append(p, []int{-4})
	}
	for _, e := range s.els {
		ln = append(ln, e.Len())
	}
	p = append(p, ln)
	for _, e := range s.els {
		var v []int
		e.Do(func(x int) { v = append(v, x) })
		p = append(p, v)
	}
	return
}
func (s *ringSys) Exec(op string, a []int) []int {
	E := func(i int) *ring.Ring[int] {
		if a[i] == 0 {
			return nil
		}
		return s.els[a[i]-1]
	}
	switch op {
	case "New":
		r := ring.New[int](a[0])
		if r == nil {
			return []int{0}
		}
		first := s.add(r)
		k := 1
		for q := r.Next(); q != r && k < a[0]+5; q = q.Next() {
			s.add(q)
			k++
		}
		if k != a[0] {
			return []int{-4}
		}
		return []int{first}
	case "Zero":
		return []int{s.add(&ring.Ring[int]{Value: a[0]})}
	case "Link":
		return []int{s.id(E(0).Link(E(1)))}
	case "Unlink":
		return []int{s.id(E(0).Unlink(a[1]))}
	case "Move":
		return []int{s.id(E(0).Move(a[1]))}
	case "Next":
		return []int{s.id(E(0).Next())}
	case "Prev":
		return []int{s.id(E(0).Prev())}
	case "Len":
		return []int{E(0).Len()}
	case "Each":
		var v []int
		E(0).Do(func(x int) { v = append(v, x) })
		return v
	case "SetVal":
		E(0).Value = a[1]
		return nil
	case "Links":
		var r []int
		for _, e := range s.els {
			r = append(r, s.id(e.Next()))
		}
		for _, e := range s.els {
			r = append(r, s.id(e.Prev()))
		}
		return r
	case "Obs":
		var r []int
		for _, x := range s.full() {
			r = append(r, x...)
		}
		return r
	}
	panic(op)
}
func (s *ringSys) Proj() [][]int {
	if s.mode == 1 {
		return nil
	}
	return s.full()
}
func (s *ringSys) RandCfg(r *rand.Rand) []int { return []int{lim(r.Intn(2), 1)} }
func (s *ringSys) Rand(r *rand.Rand) (string, []int) {
	n := len(s.els)
	if n == 0 || n < lim(14, 60, 1000) && r.Intn(lim(8, 8, 3)) == 0 {
		if r.Intn(2) == 0 {
			return "Zero", []int{r.Intn(50)}
		}
		return "New", []int{r.Intn(lim(6, 50, 600))}
	}
	e := 1 + hot(r, n)
	switch x := r.Intn(20); {
	case x < 7:
		return "Link", []int{e, hot(r, n+1)}
	case x < 12:
		return "Unlink", []int{e, r.Intn(n+4) - 1}
	case x < 15:
		return "Move", []int{e, r.Intn(6*n+3) - 3*n}
	case x == 15:
		return "Len", []int{r.Intn(n + 1)}
	case x == 16:
		return "Each", []int{r.Intn(n + 1)}
	case x == 17:
		return pickS(r, "Next", "Prev"), []int{e}
	case x == 18:
		return "SetVal", []int{e, r.Intn(50)}
	}
	if *big == 2 {
		return "Links", nil
	}
	if s.mode == 1 && r.Intn(lim(1, 4)) == 0 {
		return "Obs", nil
	}
	return "Len", []int{e}
}
func (s *ringSys) Final() []call {
	if *big == 2 {
		return []call{{"Links", []int{}}, {"Len", []int{1}}, {"Each", []int{len(s.els)}}}
	}
	if s.mode == 1 {
		return []call{{"Obs", []int{}}}
	}
	return nil
}

func sorted(x []int) []int {
	y := append([]int{}, x...)
	sort.Ints(y)
	return y
}
