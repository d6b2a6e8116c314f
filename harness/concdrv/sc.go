package concdrv

import (
	"math"
	"math/rand"
	"strconv"
	"testing/synctest"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"verifharness/vsched"
)

// Values are complex numbers: id n < 90000 is n, ids from 90000 are the zeros of different signs, which compare equal.
func scVal(id int) complex128 {
	if id < 90000 {
		return complex(float64(id), 0)
	}
	z := math.Copysign(0, -1)
	re, im := 0.0, 0.0
	if (id-90000)&1 != 0 {
		re = z
	}
	if (id-90000)&2 != 0 {
		im = z
	}
	return complex(re, im)
}

func scID(v complex128) int {
	if real(v) != 0 {
		return int(real(v))
	}
	return 90000 + b2i(math.Signbit(real(v))) + 2*b2i(math.Signbit(imag(v)))
}

// scEntry and scCache show a cache with keys and values numbered.
type scEntry interface {
	ID() int
	AddExpiration(d time.Duration)
	SetExpiration(t time.Time)
	IsExpired() bool
}

type scCache interface {
	Store(k, id int, d time.Duration)
	Load(k int) (scEntry, bool)
	LoadOrStore(k, id int, d time.Duration) (scEntry, bool)
	Delete(k int)
	LoadAndDelete(k int) (scEntry, bool)
	CompareAndDelete(k int, e scEntry) bool
	CompareValueAndDelete(k, id int) bool
	Clear()
	Range(f func(k int, e scEntry) bool)
	Start()
	Close()
	Loose(id int) scEntry // an entry that is in no cache
}

type scE[V any] struct {
	*synccache.Entry[V]
	d func(V) int
}

func (e scE[V]) ID() int { return e.d(e.Value()) }

type scT[K comparable, V any] struct {
	*synccache.SyncCache[K, V]
	ek func(int) K
	dk func(K) int
	ev func(int) V
	dv func(V) int
}

func (x *scT[K, V]) e(e *synccache.Entry[V]) scEntry {
	if e == nil {
		return nil
	}
	return scE[V]{e, x.dv}
}
func (x *scT[K, V]) Store(k, id int, d time.Duration) { x.SyncCache.Store(x.ek(k), x.ev(id), d) }
func (x *scT[K, V]) Load(k int) (scEntry, bool) {
	e, ok := x.SyncCache.Load(x.ek(k))
	return x.e(e), ok
}
func (x *scT[K, V]) LoadOrStore(k, id int, d time.Duration) (scEntry, bool) {
	e, ok := x.SyncCache.LoadOrStore(x.ek(k), x.ev(id), d)
	return x.e(e), ok
}
func (x *scT[K, V]) Delete(k int) { x.SyncCache.Delete(x.ek(k)) }
func (x *scT[K, V]) LoadAndDelete(k int) (scEntry, bool) {
	e, ok := x.SyncCache.LoadAndDelete(x.ek(k))
	return x.e(e), ok
}
func (x *scT[K, V]) CompareAndDelete(k int, e scEntry) bool {
	return x.SyncCache.CompareAndDelete(x.ek(k), e.(scE[V]).Entry)
}
func (x *scT[K, V]) CompareValueAndDelete(k, id int) bool {
	return x.SyncCache.CompareValueAndDelete(x.ek(k), x.ev(id))
}
func (x *scT[K, V]) Range(f func(k int, e scEntry) bool) {
	x.SyncCache.Range(func(k K, e *synccache.Entry[V]) bool { return f(x.dk(k), x.e(e)) })
}
func (x *scT[K, V]) Loose(id int) scEntry { return x.e(synccache.NewEntry(x.ev(id), time.Hour)) }

func mkSC[K comparable, V any](cb func(int), ek func(int) K, dk func(K) int, ev func(int) V, dv func(V) int) scCache {
	var opts []synccache.SyncCacheConfig[K, V]
	if cb != nil {
		opts = append(opts, synccache.WithDeletedCallback[K](func(v V) { cb(dv(v)) }))
	}
	return &scT[K, V]{synccache.NewSyncCache[K, V](5*time.Second, opts...), ek, dk, ev, dv}
}

// scObj values are pointers to equal contents
type (
	scObj struct{ n, pad int }
	scRec struct {
		s string
		z complex128
	}
)

const scVariants = 4

// newSC makes a cache; with variant 1 no two values are equal
func newSC(variant int, cb func(int)) scCache {
	switch variant {
	case 1:
		ids, objs := map[*scObj]int{nil: 101}, map[int]*scObj{}
		ev := func(i int) *scObj {
			if i != 101 && objs[i] == nil {
				o := &scObj{}
				objs[i], ids[o] = o, i
			}
			return objs[i]
		}
		return mkSC(cb, func(i int) string { return strconv.Itoa(i) }, func(k string) int { i, _ := strconv.Atoi(k); return i }, ev, func(o *scObj) int { return ids[o] })
	case 2:
		return mkSC(cb, func(i int) any {
			if i%2 == 0 {
				return strconv.Itoa(i)
			}
			return i
		}, func(k any) int {
			if s, ok := k.(string); ok {
				i, _ := strconv.Atoi(s)
				return i
			}
			return k.(int)
		}, func(i int) any { return scVal(i) }, func(v any) int { z, _ := v.(complex128); return scID(z) })
	case 3:
		return mkSC(cb, func(i int) [2]int { return [2]int{i % 2, i} }, func(k [2]int) int { return k[1] },
			func(i int) scRec { return scRec{"x", scVal(i)} }, func(v scRec) int { return scID(v.z) })
	}
	return mkSC(cb, from0, to1, scVal, scID)
}

type cEv struct {
	c int
	e Ev
}

type scSys struct {
	prop    string
	cs      [6]scCache
	ents    map[[2]int]scEntry // entries handed out, by cache
	logical map[int]int        // goroutine -> thread number in the history
	hasCb   int
	cb      []Op
	ncb     int
	base    time.Time
	log     []cEv
}

func (s *scSys) lg(c int, e string, t int, op string, a, r []int) {
	if a == nil {
		a = []int{}
	}
	if r == nil {
		r = []int{}
	}
	logMu.Lock()
	s.log = append(s.log, cEv{c, Ev{e, t, op, a, r}})
	logMu.Unlock()
}

func (s *scSys) prof() int { return int(s.prop[2] - '0') }

func (s *scSys) Reset(sc *Scenario) {
	s.log = s.log[:0]
	s.ents = map[[2]int]scEntry{}
	s.logical = map[int]int{}
	s.hasCb = sc.Cfg[1]
	s.cb = sc.Cb
	s.ncb = 0
	// start every run at the same phase of the trim period
	now := time.Now()
	next := now.Truncate(5 * time.Second).Add(5*time.Second + 1*time.Millisecond)
	time.Sleep(next.Sub(now))
	synctest.Wait()
	s.base = time.Now()
	for c := 0; c < len(s.cs); c++ {
		s.cs[c] = nil
		if c >= sc.Cfg[2] {
			continue
		}
		var cb func(int)
		if s.hasCb == 1 {
			cb = func(id int) { s.callback(c, id) }
		}
		s.cs[c] = newSC(sc.Cfg[0], cb)
	}
}

func (s *scSys) thread() int {
	id := vsched.ID()
	if id >= vsched.DaemonBase || id < 0 {
		return s.logical[id] // 0 unless nested
	}
	return s.logical[id]
}

func (s *scSys) callback(c, id int) {
	t := s.thread()
	s.lg(c, "cb", t, "", ints(id), nil)
	if s.ncb < len(s.cb) {
		o := s.cb[s.ncb]
		s.ncb++
		if o.A[0] < 0 { // the cache that calls back
			o.A = append(ints(c), o.A[1:]...)
		}
		exec(s, t+10, o)
	}
	vsched.Yield()
}

// scFar and -scFar stand for moments that no history reaches (see SyncCache.tla).
const scFar = 1000000000

func (s *scSys) ms(d int) time.Duration { return time.Duration(d) * time.Millisecond }

// life is the duration meant by d; the far ones differ from entry to entry.
func (s *scSys) life(d, id int) time.Duration {
	const day = 24 * time.Hour
	if d < scFar {
		return s.ms(d)
	}
	return []time.Duration{25 * day, 60 * day, 1000 * day, 36500 * day, math.MaxInt64}[id%5]
}

func (s *scSys) Exec(t int, o Op) {
	g := vsched.ID()
	old := s.logical[g]
	s.logical[g] = t
	defer func() { s.logical[g] = old }()
	if o.Op == "Adv" {
		vsched.Sleep(s.ms(o.A[0]))
		for c := range s.cs {
			s.lg(c, "adv", 0, "", ints(o.A[0]), nil)
		}
		return
	}
	c, a := o.A[0], append([]int(nil), o.A[1:]...)
	sc := s.cs[c]
	if sc == nil {
		return
	}
	var e scEntry
	switch o.Op {
	case "AddExp", "SetExp", "IsExpired":
		if e = s.ents[[2]int{c, a[1]}]; e == nil {
			return // never handed out
		}
		if o.Op == "SetExp" && a[2] > -scFar && a[2] < scFar { // relative in the program, absolute in the history
			a[2] += int(time.Since(s.base) / time.Millisecond)
		}
	case "CompareAndDelete":
		if e = s.ents[[2]int{c, a[1]}]; e == nil {
			e = sc.Loose(a[1])
			a[1] = 0
		}
	}
	la := a
	if o.Op == "Store" || o.Op == "LoadOrStore" {
		la = append([]int(nil), a...)
	}
	s.lg(c, "call", t, o.Op, la, nil)
	r := []int{}
	er := func(e scEntry, ok bool) {
		if !ok {
			if e != nil {
				r = ints(-1, 0)
				return
			}
			r = ints(0, 0)
			return
		}
		id := e.ID()
		s.ents[[2]int{c, id}] = e
		r = ints(id, 1)
	}
	switch o.Op {
	case "Store":
		sc.Store(a[0], a[1], s.life(a[2], a[1]))
	case "Load":
		er(sc.Load(a[0]))
	case "LoadOrStore":
		e, ok := sc.LoadOrStore(a[0], a[1], s.life(a[2], a[1]))
		if e != nil {
			id := e.ID()
			s.ents[[2]int{c, id}] = e
			r = ints(id, b2i(ok))
		} else {
			r = ints(-1, b2i(ok))
		}
	case "Delete":
		sc.Delete(a[0])
	case "LoadAndDelete":
		er(sc.LoadAndDelete(a[0]))
	case "CompareAndDelete":
		r = ints(b2i(sc.CompareAndDelete(a[0], e)))
	case "CompareValueAndDelete":
		r = ints(b2i(sc.CompareValueAndDelete(a[0], a[1])))
	case "Clear":
		sc.Clear()
	case "AddExp":
		e.AddExpiration(s.life(a[2], a[1]))
	case "SetExp":
		if a[2] <= -scFar {
			e.SetExpiration(time.Time{})
		} else {
			e.SetExpiration(s.base.Add(s.life(a[2], a[1])))
		}
	case "IsExpired":
		r = ints(b2i(e.IsExpired()))
	case "Close":
		sc.Close()
	case "Start":
		sc.Start()
	case "Range":
		n := 0
		sc.Range(func(k int, e scEntry) bool {
			n++
			id := e.ID()
			s.ents[[2]int{c, id}] = e
			cont := a[0] == 0 || n < a[0]
			s.lg(c, "visit", t, "Range", ints(k, id, b2i(cont)), nil)
			if len(o.Sub) >= n {
				exec(s, t+10, o.Sub[n-1])
			}
			vsched.Yield()
			return cont
		})
	default:
		panic("op " + o.Op)
	}
	s.lg(c, "ret", t, o.Op, nil, r)
	s.lg(c, "done", t, "", nil, nil)
}

func (s *scSys) Idle() {
	for c := range s.cs {
		s.lg(c, "idle", 0, "", nil, nil)
	}
}

func (s *scSys) Close() {
	for _, c := range s.cs {
		if c != nil {
			c.Close()
		}
	}
}

// Split gives the history of every cache separately.
func (s *scSys) Split(sc *Scenario, e []Ev) (cs [][]int, hs [][]Ev) {
	for c := 0; c < sc.Cfg[2]; c++ {
		var h []Ev
		for _, x := range s.log {
			if x.c != c {
				continue
			}
			switch s.prop {
			case "C04":
				if x.e.E == "cb" || x.e.E == "done" {
					continue
				}
			}
			h = append(h, x.e)
		}
		for _, x := range e { // panics and deadlocks
			h = append(h, x)
		}
		if sc.Wide > 0 {
			key := map[int]int{} // entry -> key
			for _, x := range h {
				if x.E == "call" && (x.Op == "Store" || x.Op == "LoadOrStore") {
					key[x.A[1]] = x.A[0]
				}
			}
			for f := 1; f <= sc.Wide; f += 3 {
				x := project(h, sc.Wide, f, func(x *Ev) int {
					switch {
					case x.E == "visit":
						return x.A[0]
					case x.E == "cb":
						return key[x.A[0]] // 0: nobody stored it; every restriction shows that
					case x.E != "call":
						return 0
					}
					switch x.Op {
					case "AddExp", "SetExp", "IsExpired":
						return key[x.A[1]]
					case "Clear", "Range", "Close", "Start":
						return 0
					}
					return x.A[0]
				})
				cf := ints(s.prof(), sc.Cfg[1])
				if sampled(sc.Wide, f) || s.Judge(cf, normal(x, "")) >= 0 {
					cs, hs = append(cs, cf), append(hs, x)
				}
			}
			continue
		}
		cs = append(cs, ints(s.prof(), sc.Cfg[1]))
		hs = append(hs, h)
	}
	return
}

// wide: many keys, entries of many lifetimes.
func (s *scSys) wide(r *rand.Rand) Scenario {
	n := wideN(r)
	sc := Scenario{Cfg: ints(variant(r, scVariants), 1, 1), Wide: n}
	if s.prop == "C04" {
		sc.Cfg[1] = r.Intn(2)
	}
	id := 0
	one := func(k int) Op {
		o := s.randOp(r, 0, 1, 1)
		for o.Op == "Clear" && r.Intn(4) > 0 {
			o = s.randOp(r, 0, 1, 1)
		}
		switch o.Op {
		case "Adv", "Clear", "Close", "Start":
			return o
		case "Range":
			o.A[1] = 0
			return o
		case "AddExp", "SetExp", "IsExpired":
			o.A[2] = 1 + r.Intn(id+1)
			return o
		case "Store", "LoadOrStore":
			id++
			o.A[2] = id
		case "CompareAndDelete", "CompareValueAndDelete":
			o.A[2] = 1 + r.Intn(id+1)
		}
		o.A[1] = k
		return o
	}
	var p []Op
	for k := 1; k <= n; k++ { // fill
		if r.Intn(6) > 0 {
			id++
			p = append(p, op("Store", 0, k, id, []int{10, 20, 50, 6000, 6000, 60000, scFar}[r.Intn(7)]))
		}
	}
	if r.Intn(2) == 0 {
		p = append(p, op("Range", 0, 0))
	}
	for i := r.Intn(n); i > 0; i-- {
		p = append(p, one(1+r.Intn(n)))
	}
	if r.Intn(2) == 0 {
		p = append(p, op("Adv", []int{15, 30, 6500}[r.Intn(3)]))
	}
	sc.Phases = [][][]Op{{p}}
	hot := 1 + r.Intn(n)
	for ph := r.Intn(3); ph > 0; ph-- {
		var th [][]Op
		for t := 0; t < 2; t++ {
			var q []Op
			for i := 1 + r.Intn(3); i > 0; i-- {
				k := hot
				if r.Intn(2) == 0 {
					k = 1 + r.Intn(n)
				}
				q = append(q, one(k))
			}
			th = append(th, q)
		}
		sc.Phases = append(sc.Phases, th)
	}
	if s.prop == "C06" {
		for i := 0; i < 1+r.Intn(3); i++ {
			sc.Phases = append(sc.Phases, [][]Op{{op("Adv", []int{1000, 7000, 20000}[r.Intn(3)])}})
		}
		sc.Phases = append(sc.Phases, [][]Op{{op("Adv", 30000)}})
	}
	fin := []Op{op("Range", 0, 0)}
	for k := 1; k <= n; k++ {
		fin = append(fin, op("Load", 0, k))
	}
	sc.Phases = append(sc.Phases, [][]Op{fin})
	return sc
}

func (s *scSys) Judge(c []int, e []Ev) int { return judge[scState](&scModel{}, c, e) }

// prefixes: cache 0, key 1 live / expired / extended / replaced / absent
func scPrefixes() [][]Op {
	st := op("Store", 0, 1, 1, 10)
	return [][]Op{
		{},
		{op("Store", 0, 1, 1, 100), op("Load", 0, 1)},
		{st, op("Load", 0, 1), op("Adv", 15)},                            // expired, in the cache
		{st, op("Load", 0, 1)},                                           // expires during the run
		{st, op("Load", 0, 1), op("Adv", 15), op("Store", 0, 2, 2, 100)}, // expired and another key
		{st, op("Load", 0, 1), op("Store", 0, 2, 2, 100), op("Load", 0, 3), op("Load", 0, 3)},
		{st, op("Load", 0, 1), op("Delete", 0, 1)},
	}
}

func scOps(b int) []Op {
	return []Op{
		op("Load", 0, 1), op("Store", 0, 1, b+1, 50), op("LoadOrStore", 0, 1, b+2, 50), op("LoadAndDelete", 0, 1), op("Delete", 0, 1),
		op("CompareAndDelete", 0, 1, 1), op("CompareValueAndDelete", 0, 1, 1), op("Clear", 0), op("Range", 0, 0),
		op("AddExp", 0, 0, 1, 50), op("SetExp", 0, 0, 1, 20), op("Store", 0, 1, b+3, -5),
	}
}

func (s *scSys) Systematic(yield func(Scenario) bool) {
	cfgs := [][]int{{0, 1, 1}, {0, 0, 1}}
	if s.prop != "C04" {
		cfgs = cfgs[:1]
	}
	last := [][]Op{{op("Load", 0, 1), op("Load", 0, 2), op("Range", 0, 0)}}
	if s.prop == "C06" {
		s.systematicTrim(yield)
		return
	}
	for _, cf := range cfgs {
		for _, p := range scPrefixes() {
			for i, a := range scOps(10) {
				for j, b := range scOps(20) {
					if j < i {
						continue
					}
					th := [][]Op{{a}, {b}}
					if !yield(Scenario{Cfg: cf, Phases: [][][]Op{{p}, th, last}}) {
						return
					}
				}
			}
			// the clock as a third party
			for i, a := range scOps(10) {
				for j, b := range scOps(20) {
					if j < i || (a.Op != "Load" && a.Op != "LoadOrStore" && a.Op != "Range" && a.Op != "Store" && b.Op != "LoadOrStore") {
						continue
					}
					th := [][]Op{{a}, {b}, {op("Adv", 15)}}
					if !yield(Scenario{Cfg: cf, Phases: [][][]Op{{p}, th, last}}) {
						return
					}
				}
			}
		}
	}
	// lifetimes moved concurrently, observed later
	exps := []Op{op("AddExp", 0, 0, 1, 50), op("AddExp", 0, 0, 1, 30), op("SetExp", 0, 0, 1, 20), op("SetExp", 0, 0, 1, 90), op("AddExp", 0, 0, 1, -40), op("Load", 0, 1),
		op("LoadOrStore", 0, 1, 5, 70), op("Store", 0, 1, 6, 15), op("IsExpired", 0, 0, 1)}
	for i, a := range exps {
		for j, b := range exps {
			if j < i || s.prop == "C05" {
				continue
			}
			for _, d := range ints(10, 60) {
				var look []Op
				for _, dt := range ints(16, 20, 20, 20, 20, 20, 20, 20) {
					look = append(look, op("Adv", dt), op("IsExpired", 0, 0, 1), op("Load", 0, 1))
				}
				if !yield(Scenario{Cfg: cfgs[0], Phases: [][][]Op{{{op("Store", 0, 1, 1, d), op("Load", 0, 1)}}, {{a}, {b}}, {look}}}) {
					return
				}
			}
		}
	}
	// entries of equal values replacing each other
	eq := []Op{op("CompareValueAndDelete", 0, 1, 90003), op("Store", 0, 1, 90001, 50), op("LoadOrStore", 0, 1, 90002, 50), op("CompareAndDelete", 0, 1, 90000),
		op("LoadAndDelete", 0, 1), op("Delete", 0, 1), op("Load", 0, 1), op("Clear", 0)}
	for _, d := range ints(100, 10, -5) {
		for i, a := range eq[:4] {
			for _, b := range eq[i:] {
				for _, th := range [][][]Op{{{a}, {b}}, {{a}, {b}, {op("Adv", 15)}}, {{a}, {op("Delete", 0, 1), b}}} {
					if !yield(Scenario{Cfg: cfgs[0], Phases: [][][]Op{{{op("Store", 0, 1, 90000, d), op("Load", 0, 1)}}, th, last}}) {
						return
					}
				}
			}
		}
	}
	if s.prop == "C05" { // re-entrant callbacks
		for _, p := range scPrefixes()[1:5] {
			for _, a := range scOps(10) {
				for _, x := range scOps(30) {
					if x.Op == "AddExp" || x.Op == "SetExp" {
						continue
					}
					if !yield(Scenario{Cfg: ints(0, 1, 1), Cb: []Op{x, op("Store", 0, 1, 41, 50)}, Phases: [][][]Op{{p}, {{a}}, last}}) {
						return
					}
				}
			}
		}
	}
}

func (s *scSys) systematicTrim(yield func(Scenario) bool) {
	cf := ints(0, 1, 1)
	last := [][]Op{{op("Load", 0, 1), op("Load", 0, 2), op("Range", 0, 0)}}
	pre := [][]Op{
		{op("Store", 0, 1, 1, 10), op("Load", 0, 1)},
		{op("Store", 0, 1, 1, 10), op("Load", 0, 1), op("Store", 0, 2, 2, 60000)},
		{op("Store", 0, 1, 1, 6000), op("Store", 0, 2, 2, 10)},
	}
	for _, p := range pre {
		for _, a := range append(scOps(10), op("Close", 0), op("Store", 0, 2, 18, 9000)) {
			// the clock reaches a tick while a runs; the trimmer runs concurrently
			if !yield(Scenario{Cfg: cf, Phases: [][][]Op{{p}, {{op("Adv", 5010)}, {a}}, {{op("Adv", 1000)}}, last, {{op("Adv", 20000)}}, {{op("Adv", 20000)}}}}) {
				return
			}
			for _, b := range []Op{op("Store", 0, 1, 21, 60000), op("LoadOrStore", 0, 1, 22, 60000), op("Load", 0, 1), op("Start", 0), op("Delete", 0, 1)} {
				if !yield(Scenario{Cfg: cf, Phases: [][][]Op{{p}, {{op("Adv", 5010)}, {a, b}}, last, {{op("Adv", 20000)}}, {{op("Adv", 20000)}}}}) {
					return
				}
			}
		}
	}
	// callbacks of several caches that close or restart their own cache, or another one
	for _, x := range []Op{op("Close", -1), op("Start", -1), op("Clear", -1), op("Close", 0), op("Delete", -1, 2)} {
		for _, nc := range ints(2, 6) {
			var fill, cb []Op
			for c := 0; c < nc; c++ {
				fill = append(fill, op("Store", c, 1, 10*c+1, 10), op("Store", c, 2, 10*c+2, 60000), op("Store", c, 3, 10*c+3, 6000))
				cb = append(cb, x)
			}
			for i := 0; i < 3; i++ {
				if !yield(Scenario{Cfg: ints(0, 1, nc), Cb: cb, Phases: [][][]Op{{fill}, {{op("Adv", 6000)}}, {{op("Adv", 7000)}}, {{op("Adv", 14000)}}, {{op("Load", 0, 1), op("Load", 1, 2), op("Range", 1, 0)}}}}) {
					return
				}
			}
		}
	}
	// a long quiet time, also with nothing in the cache
	for _, p := range [][]Op{{}, {op("Store", 0, 2, 2, scFar)}, {op("Store", 0, 2, 2, 60000)}, {op("Close", 0)}} {
		hour := [][]Op{{op("Adv", 3600000)}}
		if !yield(Scenario{Cfg: cf, Phases: [][][]Op{{p}, hour, {{op("Store", 0, 1, 1, 10)}}, {{op("Adv", 20000)}}, {{op("Adv", 20000)}}, {{op("Start", 0)}}, {{op("Adv", 30000)}}, last}}) {
			return
		}
	}
	for _, seq := range [][]Op{ // Start and Close
		{op("Close", 0)}, {op("Close", 0), op("Start", 0)}, {op("Start", 0), op("Start", 0)}, {op("Start", 0), op("Close", 0)},
		{op("Close", 0), op("Close", 0), op("Start", 0)}, {op("Close", 1)}, {op("Close", 1), op("Start", 0)}, {op("Close", 0), op("Start", 1)}, {op("Close", 2), op("Close", 1)},
	} {
		ph := [][][]Op{{{op("Store", 0, 1, 1, 10), op("Store", 1, 1, 2, 10), op("Store", 2, 1, 3, 10), op("Store", 0, 2, 4, 45000), op("Store", 1, 2, 5, 45000)}}, {seq}}
		for i := 0; i < 3; i++ {
			ph = append(ph, [][]Op{{op("Adv", 7000)}}, [][]Op{{op("Adv", 14000)}})
		}
		ph = append(ph, [][]Op{{op("Load", 0, 1), op("Load", 1, 1), op("Load", 2, 1)}})
		if !yield(Scenario{Cfg: ints(0, 1, 3), Phases: ph}) {
			return
		}
	}
}

func (s *scSys) randOp(r *rand.Rand, id int, nc, keys int) Op {
	c, k := r.Intn(nc), 1+r.Intn(keys)
	d := []int{-20, 0, 10, 20, 50, 100, 6000, 60000, scFar}[r.Intn(9)]
	any := []int{1, 2, 3, 101, 102, 201, 202, 301, 90000, 90001, 90002}[r.Intn(11)]
	switch x := r.Intn(26); {
	case x < 4:
		return op("Load", c, k)
	case x < 7:
		return op("Store", c, k, id, d)
	case x < 11:
		return op("LoadOrStore", c, k, id, d)
	case x < 13:
		return op("LoadAndDelete", c, k)
	case x < 14:
		return op("Delete", c, k)
	case x < 16:
		return op("CompareAndDelete", c, k, any)
	case x < 18:
		return op("CompareValueAndDelete", c, k, any)
	case x < 19:
		return op("Clear", c)
	case x < 21:
		return op("Range", c, r.Intn(3)*r.Intn(2))
	case x < 22:
		return op("AddExp", c, 0, any, []int{-15, 15, 100, 7000, scFar}[r.Intn(5)])
	case x < 23:
		return op("SetExp", c, 0, any, []int{-5, 0, 5, 100, 7000, scFar, -scFar}[r.Intn(7)])
	case x < 24:
		return op("IsExpired", c, 0, any)
	case x < 25 && s.prop == "C06":
		return op([]string{"Close", "Start"}[r.Intn(2)], c)
	default:
		return op("Adv", []int{1, 5, 9, 10, 11, 15, 30, 5000, 6500, 6500 + r.Intn(40)/39*3600000}[r.Intn(10)])
	}
}

func (s *scSys) Random(r *rand.Rand) Scenario {
	if r.Intn(8) == 0 {
		return s.wide(r)
	}
	nc := 1
	if s.prop == "C06" || r.Intn(6) == 0 {
		nc = 1 + r.Intn(3) + r.Intn(8)/7*3
	}
	sc := Scenario{Cfg: ints(variant(r, scVariants), 1, nc)}
	if s.prop == "C04" {
		sc.Cfg[1] = r.Intn(2)
	}
	keys := 1 + r.Intn(3)
	next := map[int]int{}
	zero := 90000
	mk := func(base int) Op {
		next[base]++
		id := base*100 + next[base] // unique in the scenario
		if r.Intn(4) == 0 && zero < 90004 && sc.Cfg[0] != 1 {
			id = zero
		}
		o := s.randOp(r, id, nc, keys)
		if id == zero && (o.Op == "Store" || o.Op == "LoadOrStore") {
			zero++
		}
		return o
	}
	seqn := func(base, n int) (p []Op) {
		for ; n > 0; n-- {
			p = append(p, mk(base))
		}
		return
	}
	if r.Intn(4) == 0 {
		sc.Phases = [][][]Op{{seqn(0, 5+r.Intn(15))}}
	} else {
		sc.Phases = append(sc.Phases, [][]Op{seqn(0, r.Intn(6))})
		var th [][]Op
		for t, n := 1, 2+r.Intn(2); t <= n; t++ {
			th = append(th, seqn(t, 1+r.Intn(2)))
		}
		sc.Phases = append(sc.Phases, th)
		if r.Intn(3) == 0 {
			sc.Phases = append(sc.Phases, [][]Op{seqn(5, r.Intn(4))})
		}
	}
	if s.prop != "C04" && r.Intn(3) == 0 {
		for i := 0; i < 1+r.Intn(2); i++ {
			if o := mk(6); o.Op != "Adv" {
				if r.Intn(2) == 0 {
					o.A[0] = -1
				}
				sc.Cb = append(sc.Cb, o)
			}
		}
	}
	if s.prop == "C06" {
		for i := 0; i < 1+r.Intn(3); i++ {
			sc.Phases = append(sc.Phases, [][]Op{{op("Adv", []int{1000, 7000, 20000}[r.Intn(3)])}})
		}
		sc.Phases = append(sc.Phases, [][]Op{{op("Adv", 30000)}})
	}
	if s.prop != "C06" && r.Intn(3) == 0 {
		sc.Phases = append(sc.Phases, [][]Op{{op("Adv", []int{5, 16, 40, 80}[r.Intn(4)])}})
	}
	var fin []Op
	for c := 0; c < nc; c++ {
		for k := 1; k <= keys; k++ {
			fin = append(fin, op("Load", c, k))
		}
	}
	sc.Phases = append(sc.Phases, [][]Op{fin})
	return sc
}

// variant: a type of keys and values, the plainest one most of the time
func variant(r *rand.Rand, n int) int {
	if r.Intn(3) > 0 {
		return 0
	}
	return r.Intn(n)
}
