package concdrv

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"verifharness/vsched"
)

// rcBig stands for the largest duration, rcBig-1 for one of a hundred years.
const rcBig = 1000000000

type rcErr struct{ id int }

func (e *rcErr) Error() string { return fmt.Sprint("error ", e.id) }

type rcPanic struct{ id int }

// rcTok travels in the caller's context.
type rcTok struct {
	t   int
	arg int
	out []int // outcome of the function: kind (0 success, 1 error, 2 panic), value, error
	dur int
	sub []Op
}

type (
	rcKey   struct{}
	rcProbe struct{}
)

// rcCache adapts the three variants; fid 0 means the function installed in the cache.
type rcCache interface {
	Get(ctx context.Context, fid, arg int) (int, error)
	Refresh(ctx context.Context, fid, arg int) (int, error)
	Clear(ctx context.Context, fid, arg int) error
	SetRefresh(fid int)
	SetClear(fid int)
	GetRefresh() int
	GetClear() int
	D() rcData
}

type rcData interface {
	Raw() (int, error)
	Last() int64
	LastTime() time.Time
	LastErr() int64
	LastErrTime() time.Time
	MaxAge() int64
	MaxErrAge() int64
}

type rcSys struct {
	prop    string
	c       rcCache
	unit    time.Duration
	base    time.Time
	logical map[int]int
	toks    map[int]*rcTok
	maxAge  time.Duration
	errAge  time.Duration
}

func (s *rcSys) dur(x int) time.Duration {
	switch {
	case x == rcBig:
		return math.MaxInt64
	case x == rcBig-1:
		return 100 * 365 * 24 * time.Hour
	case x == -rcBig:
		return math.MinInt64
	}
	return time.Duration(x) * s.unit
}

var rcUnits = []time.Duration{time.Nanosecond, 700 * time.Nanosecond, time.Millisecond, time.Second}

// Cfg: maximum age, error age, variant, unit, bare data
func (s *rcSys) Reset(sc *Scenario) {
	s.logical = map[int]int{}
	s.toks = map[int]*rcTok{}
	s.unit = rcUnits[sc.Cfg[3]]
	s.maxAge, s.errAge = s.dur(sc.Cfg[0]), s.dur(sc.Cfg[1])
	s.base = time.Now()
	bare := sc.Cfg[4] == 1
	switch sc.Cfg[2] {
	case 0:
		var o []refreshcache0.RefreshDataOption[int]
		if s.errAge != 0 {
			o = append(o, refreshcache0.WithErrAge[int](s.errAge))
		}
		x := &rc0{s: s}
		if bare {
			x.d = refreshcache0.NewRefreshData(s.maxAge, o...)
		} else {
			x.c = refreshcache0.NewRefreshCache(x.fn(1), s.maxAge, o...)
			x.d = x.c.Data()
		}
		s.c = x
	case 1:
		var o []refreshcache1.RefreshDataOption[int, int]
		if s.errAge != 0 {
			o = append(o, refreshcache1.WithErrAge[int, int](s.errAge))
		}
		x := &rc1{s: s}
		if bare {
			x.d = refreshcache1.NewRefreshData(s.maxAge, o...)
		} else {
			x.c = refreshcache1.NewRefreshCache(x.fn(1), s.maxAge, o...)
			x.d = x.c.Data()
		}
		s.c = x
	default:
		var o []refreshcache.RefreshDataOption[int, int]
		if s.errAge != 0 {
			o = append(o, refreshcache.WithErrAge[int, int](s.errAge))
		}
		x := &rcN{s: s}
		if bare {
			x.d = refreshcache.NewRefreshData(s.maxAge, o...)
		} else {
			x.c = refreshcache.NewRefreshCache(x.fn(1), s.maxAge, o...)
			x.d = x.c.Data()
		}
		s.c = x
	}
}

// run is the body of every refresh (e = "r") and clear (e = "c") function.
func (s *rcSys) run(e string, fid int, ctx context.Context, arg int, old any) (int, error) {
	if p, ok := ctx.Value(rcProbe{}).(*int); ok {
		*p = fid
		return 0, nil
	}
	t := s.logical[vsched.ID()]
	tok := s.toks[t]
	ctxok := b2i(tok != nil && ctx.Value(rcKey{}) == tok)
	ov, ok := old.(int)
	if !ok {
		ov = -1
	}
	logEv(e+"begin", t, "", ints(fid, arg, ov, ctxok), nil)
	if tok == nil {
		return 0, nil
	}
	for _, o := range tok.sub {
		exec(s, t+10, o)
	}
	vsched.Yield()
	if tok.dur > 0 {
		vsched.Sleep(s.dur(tok.dur))
		logEv("adv", 0, "", ints(tok.dur), nil)
		vsched.Yield()
	}
	var err error
	if tok.out[2] != 0 {
		err = &rcErr{tok.out[2]}
	}
	if e == "c" {
		logEv("cend", t, "", ints(tok.out[0], tok.out[2]), nil)
	} else {
		logEv("rend", t, "", tok.out, nil)
	}
	if tok.out[0] == 2 {
		panic(rcPanic{tok.arg})
	}
	return tok.out[1], err
}

func (s *rcSys) stamp(ns int64) []int {
	if ns == 0 {
		return ints(-1)
	}
	d := ns - s.base.UnixNano()
	if d%int64(s.unit) != 0 {
		return ints(-777)
	}
	return ints(int(d / int64(s.unit)))
}

// Ops: Get/Refresh arg fid kind value error dur; Clear arg fid kind error dur; others: see below.
func (s *rcSys) Exec(t int, o Op) {
	g := vsched.ID()
	old := s.logical[g]
	s.logical[g] = t
	defer func() { s.logical[g] = old }()
	a := o.A
	switch o.Op {
	case "Adv":
		vsched.Sleep(s.dur(a[0]))
		logEv("adv", 0, "", ints(a[0]), nil)
		return
	case "Get", "Refresh", "Clear":
		tok := &rcTok{t: t, arg: a[0], sub: o.Sub}
		if o.Op == "Clear" {
			tok.out, tok.dur = ints(a[2], 0, a[3]), a[4]
		} else {
			tok.out, tok.dur = ints(a[2], a[3], a[4]), a[5]
		}
		s.toks[t] = tok
		la := ints(a[0], a[1])
		if _, ok := s.c.(*rc0); ok {
			la[0] = 0
		}
		logEv("call", t, o.Op, la, nil)
		func() {
			r := ints(-3, -3)
			defer func() {
				if x := recover(); x != nil {
					if p, ok := x.(rcPanic); !ok || p.id != tok.arg || tok.out[0] != 2 {
						panic(x)
					}
					r = ints(-2, -2)
				}
				if o.Op == "Clear" {
					r = r[1:]
				}
				logEv("ret", t, o.Op, nil, r)
			}()
			ctx := context.WithValue(context.Background(), rcKey{}, tok)
			var v int
			var err error
			switch o.Op {
			case "Get":
				v, err = s.c.Get(ctx, a[1], a[0])
			case "Refresh":
				v, err = s.c.Refresh(ctx, a[1], a[0])
			case "Clear":
				err = s.c.Clear(ctx, a[1], a[0])
			}
			r = ints(v, rcErrID(err))
		}()
		return
	}
	logEv("call", t, o.Op, a, nil)
	r := []int{}
	switch o.Op {
	case "Raw":
		v, err := s.c.D().Raw()
		r = ints(v, rcErrID(err))
	case "Last":
		r = s.stamp(s.c.D().Last())
	case "LastTime":
		r = s.stamp(s.c.D().LastTime().UnixNano())
	case "LastErr":
		r = s.stamp(s.c.D().LastErr())
	case "LastErrTime":
		r = s.stamp(s.c.D().LastErrTime().UnixNano())
	case "MaxAge":
		r = ints(b2i(s.c.D().MaxAge() == int64(s.maxAge)))
	case "MaxErrAge":
		r = ints(b2i(s.c.D().MaxErrAge() == int64(s.errAge)))
	case "SetRefresh":
		s.c.SetRefresh(a[0])
	case "SetClear":
		s.c.SetClear(a[0])
	case "GetRefresh":
		r = ints(s.c.GetRefresh())
	case "GetClear":
		r = ints(s.c.GetClear())
	default:
		panic("op " + o.Op)
	}
	logEv("ret", t, o.Op, nil, r)
}

func rcErrID(e error) int {
	if e == nil {
		return 0
	}
	if x, ok := e.(*rcErr); ok {
		return x.id
	}
	return -1
}

func (s *rcSys) Idle()  {}
func (s *rcSys) Close() {}

func (s *rcSys) Split(sc *Scenario, e []Ev) ([][]int, [][]Ev) {
	return [][]int{ints(sc.Cfg[0], sc.Cfg[1])}, [][]Ev{e}
}

func (s *rcSys) Judge(c []int, e []Ev) int { return judge[rcState](&rcModel{}, c, e) }

// ---- the three variants ----

type rc0 struct {
	s *rcSys
	c *refreshcache0.RefreshCache[int]
	d *refreshcache0.RefreshData[int]
}

func (x *rc0) fn(fid int) refreshcache0.RefreshFunc[int] {
	return func(ctx context.Context) (int, error) {
		return x.s.run("r", fid, ctx, 0, ctx.Value(refreshcache0.OldValKey))
	}
}

func (x *rc0) cfn(fid int) refreshcache0.ClearFunc[int] {
	if fid <= 0 {
		return nil
	}
	return func(ctx context.Context) error {
		_, err := x.s.run("c", fid, ctx, 0, ctx.Value(refreshcache0.OldValKey))
		return err
	}
}

func (x *rc0) Get(ctx context.Context, fid, arg int) (int, error) {
	if fid == 0 {
		return x.c.Get(ctx)
	}
	return x.d.Get(ctx, x.fn(fid))
}

func (x *rc0) Refresh(ctx context.Context, fid, arg int) (int, error) {
	if fid == 0 {
		return x.c.Refresh(ctx)
	}
	return x.d.Refresh(ctx, x.fn(fid))
}

func (x *rc0) Clear(ctx context.Context, fid, arg int) error {
	if fid == 0 {
		return x.c.Clear(ctx)
	}
	return x.d.Clear(ctx, x.cfn(fid))
}
func (x *rc0) SetRefresh(fid int) { x.c.SetRefreshFunc(x.fn(fid)) }
func (x *rc0) SetClear(fid int)   { x.c.SetClearFunc(x.cfn(fid)) }
func (x *rc0) GetRefresh() (r int) {
	x.c.GetRefreshFunc()(context.WithValue(context.Background(), rcProbe{}, &r))
	return
}

func (x *rc0) GetClear() (r int) {
	if f := x.c.GetClearFunc(); f != nil {
		f(context.WithValue(context.Background(), rcProbe{}, &r))
	}
	return
}
func (x *rc0) D() rcData { return x.d }

type rc1 struct {
	s *rcSys
	c *refreshcache1.RefreshCache[int, int]
	d *refreshcache1.RefreshData[int, int]
}

func (x *rc1) fn(fid int) refreshcache1.RefreshFunc[int, int] {
	return func(ctx context.Context, arg int) (int, error) {
		return x.s.run("r", fid, ctx, arg, ctx.Value(refreshcache1.OldValKey))
	}
}

func (x *rc1) cfn(fid int) refreshcache1.ClearFunc[int, int] {
	if fid <= 0 {
		return nil
	}
	return func(ctx context.Context, arg int) error {
		_, err := x.s.run("c", fid, ctx, arg, ctx.Value(refreshcache1.OldValKey))
		return err
	}
}

func (x *rc1) Get(ctx context.Context, fid, arg int) (int, error) {
	if fid == 0 {
		return x.c.Get(ctx, arg)
	}
	return x.d.Get(ctx, x.fn(fid), arg)
}

func (x *rc1) Refresh(ctx context.Context, fid, arg int) (int, error) {
	if fid == 0 {
		return x.c.Refresh(ctx, arg)
	}
	return x.d.Refresh(ctx, x.fn(fid), arg)
}

func (x *rc1) Clear(ctx context.Context, fid, arg int) error {
	if fid == 0 {
		return x.c.Clear(ctx, arg)
	}
	return x.d.Clear(ctx, x.cfn(fid), arg)
}
func (x *rc1) SetRefresh(fid int) { x.c.SetRefreshFunc(x.fn(fid)) }
func (x *rc1) SetClear(fid int)   { x.c.SetClearFunc(x.cfn(fid)) }
func (x *rc1) GetRefresh() (r int) {
	x.c.GetRefreshFunc()(context.WithValue(context.Background(), rcProbe{}, &r), 0)
	return
}

func (x *rc1) GetClear() (r int) {
	if f := x.c.GetClearFunc(); f != nil {
		f(context.WithValue(context.Background(), rcProbe{}, &r), 0)
	}
	return
}
func (x *rc1) D() rcData { return x.d }

type rcN struct {
	s *rcSys
	c *refreshcache.RefreshCache[int, int]
	d *refreshcache.RefreshData[int, int]
}

// several arguments for one number, none for some
func rcArgs(n int) []int {
	switch n % 3 {
	case 0:
		return ints(n)
	case 1:
		return ints(n, n+1)
	}
	return ints(n, 2*n, 3*n)
}

func rcArg(a []int) int {
	if len(a) == 0 {
		return -1
	}
	b := rcArgs(a[0])
	if len(a) != len(b) {
		return -2
	}
	for i := range a {
		if a[i] != b[i] {
			return -3
		}
	}
	return a[0]
}

func (x *rcN) fn(fid int) refreshcache.RefreshFunc[int, int] {
	return func(ctx context.Context, args ...int) (int, error) {
		return x.s.run("r", fid, ctx, rcArg(args), ctx.Value(refreshcache.OldValKey))
	}
}

func (x *rcN) cfn(fid int) refreshcache.ClearFunc[int, int] {
	if fid <= 0 {
		return nil
	}
	return func(ctx context.Context, args ...int) error {
		_, err := x.s.run("c", fid, ctx, rcArg(args), ctx.Value(refreshcache.OldValKey))
		return err
	}
}

func (x *rcN) Get(ctx context.Context, fid, arg int) (int, error) {
	if fid == 0 {
		return x.c.Get(ctx, rcArgs(arg)...)
	}
	return x.d.Get(ctx, x.fn(fid), rcArgs(arg)...)
}

func (x *rcN) Refresh(ctx context.Context, fid, arg int) (int, error) {
	if fid == 0 {
		return x.c.Refresh(ctx, rcArgs(arg)...)
	}
	return x.d.Refresh(ctx, x.fn(fid), rcArgs(arg)...)
}

func (x *rcN) Clear(ctx context.Context, fid, arg int) error {
	if fid == 0 {
		return x.c.Clear(ctx, rcArgs(arg)...)
	}
	return x.d.Clear(ctx, x.cfn(fid), rcArgs(arg)...)
}
func (x *rcN) SetRefresh(fid int) { x.c.SetRefreshFunc(x.fn(fid)) }
func (x *rcN) SetClear(fid int)   { x.c.SetClearFunc(x.cfn(fid)) }
func (x *rcN) GetRefresh() (r int) {
	x.c.GetRefreshFunc()(context.WithValue(context.Background(), rcProbe{}, &r))
	return
}

func (x *rcN) GetClear() (r int) {
	if f := x.c.GetClearFunc(); f != nil {
		f(context.WithValue(context.Background(), rcProbe{}, &r))
	}
	return
}
func (x *rcN) D() rcData { return x.d }

// ---- scenarios ----

// numbered gives calls distinct arguments, values and errors.
func rcNumber(ops []Op, n *int) []Op {
	r := make([]Op, len(ops))
	for i, o := range ops {
		a := append([]int(nil), o.A...)
		switch o.Op {
		case "Get", "Refresh":
			*n++
			a[0] = *n
			if a[3] != 0 {
				a[3] = 100 + *n
			}
			if a[2] == 1 {
				a[4] = 200 + *n
			}
		case "Clear":
			*n++
			a[0] = *n
			if a[2] == 1 {
				a[3] = 200 + *n
			}
		}
		r[i] = Op{o.Op, a, nil}
		r[i].Sub = rcNumber(o.Sub, n)
	}
	return r
}

func get(kind int) Op     { return op("Get", 0, 0, kind, 1, 0, 0) }
func refresh(kind int) Op { return op("Refresh", 0, 0, kind, 1, 0, 0) }
func clr(kind int) Op     { return op("Clear", 0, 0, kind, 0, 0) }
func slow(o Op, d int) Op { o.A = append([]int(nil), o.A...); o.A[len(o.A)-1] = d; return o }
func fid(o Op, f int) Op  { o.A = append([]int(nil), o.A...); o.A[1] = f; return o }

func rcCfg(maxAge, errAge, variant, unit, bare int) []int {
	return ints(maxAge, errAge, variant, unit, bare)
}

// sequences enumerates all programs of exactly n operations.
func rcSequences(ops []Op, n int, f func([]Op) bool) bool {
	p := make([]Op, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return f(p)
		}
		for _, o := range ops {
			p[i] = o
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

func (s *rcSys) Systematic(yield func(Scenario) bool) {
	tail := []Op{op("Last"), op("LastErr"), op("LastTime"), op("LastErrTime"), op("MaxAge"), op("MaxErrAge"), op("Raw"), get(0), get(1)}
	switch s.prop {
	case "C07":
		// all programs of three steps over these, for every pair of ages
		ops := []Op{get(0), get(1), refresh(0), refresh(1), clr(0), op("Adv", 4), op("Adv", 6)}
		cfgs := [][]int{}
		for _, m := range ints(-1, 0, 10, 1, rcBig, rcBig-1, -rcBig) {
			for _, e := range ints(0, 10, 6, -1, rcBig, rcBig-1) {
				cfgs = append(cfgs, ints(m, e))
			}
		}
		n := 0
		for _, c := range cfgs {
			if !rcSequences(ops, 3, func(p []Op) bool {
				n++
				var all []Op
				for i, o := range p { // look between the steps, too
					if i > 0 && n%2 == 0 && o.Op == "Adv" {
						all = append(all, op("Last"), op("LastErr"))
					}
					all = append(all, o)
				}
				k := 0
				all = rcNumber(append(all, tail...), &k)
				for v := 0; v < 3; v++ {
					if !yield(Scenario{Cfg: rcCfg(c[0], c[1], v, n%len(rcUnits), 0), Phases: [][][]Op{{all}}}) {
						return false
					}
				}
				return true
			}) {
				return
			}
		}
	case "C09":
		ops := []Op{get(0), get(1), get(2), refresh(0), refresh(1), refresh(2), clr(0), clr(1), op("Raw"), op("Adv", 20), op("SetClear", 1), op("SetRefresh", 2), op("SetClear", 0), clr(2)}
		n := 0
		for _, c := range [][]int{{10, 0}, {-1, 0}, {10, 15}, {0, 0}} {
			if !rcSequences(ops, 3, func(p []Op) bool {
				n++
				k := 0
				all := []Op{}
				if n%2 == 0 {
					all = append(all, op("SetClear", 2), refresh(0))
				}
				all = append(append(all, p...), op("Raw"), clr(0), op("Raw"), get(0), op("Raw"), refresh(1), op("Raw"), refresh(0), op("GetRefresh"), op("GetClear"))
				all = rcNumber(all, &k)
				for v := 0; v < 3; v++ {
					if !yield(Scenario{Cfg: rcCfg(c[0], c[1], v, 2, 0), Phases: [][][]Op{{all}}}) {
						return false
					}
				}
				return true
			}) {
				return
			}
		}
	case "C08":
		pre := [][]Op{{}, {get(0)}, {get(0), op("Adv", 12)}, {get(1)}, {get(0), get(0), op("Adv", 12), get(1)}, {op("SetClear", 1), get(0)}, {get(2)}}
		ops := []Op{get(0), get(1), get(2), refresh(0), refresh(1), refresh(2), clr(0), slow(get(0), 3), slow(get(0), 12), op("Adv", 12), op("Raw"),
			{Op: "Get", A: ints(0, 0, 0, 1, 0, 0), Sub: []Op{clr(0), op("Raw")}}, op("Last")}
		n := 0
		for _, c := range [][]int{{10, 0}, {10, 5}, {-1, 0}, {0, 0}, {0, 20}, {rcBig, rcBig}} {
			for _, p := range pre {
				for i, a := range ops {
					for j, b := range ops {
						if j < i {
							continue
						}
						n++
						k := 0
						pp := rcNumber(p, &k)
						th := [][]Op{rcNumber([]Op{a}, &k), rcNumber([]Op{b}, &k)}
						if n%4 == 0 {
							th = append(th, rcNumber([]Op{get(0)}, &k))
						}
						if !yield(Scenario{Cfg: rcCfg(c[0], c[1], n%3, 0, 0), Phases: [][][]Op{{pp}, th, {rcNumber([]Op{op("Raw"), get(0), get(0)}, &k)}}}) {
							return
						}
					}
				}
			}
		}
	}
}

func (s *rcSys) randOp(r *rand.Rand, bare bool, depth int) Op {
	f := 0
	if bare || r.Intn(6) == 0 {
		f = 1 + r.Intn(4)
	}
	kind := []int{0, 0, 0, 1, 1, 2}[r.Intn(6)]
	if s.prop == "C07" {
		kind = r.Intn(2)
	}
	d := 0
	if r.Intn(4) == 0 {
		d = []int{1, 3, 9, 10, 11}[r.Intn(5)]
	}
	x := r.Intn(24)
	switch {
	case x < 8:
		o := op("Get", 0, f, kind, b2i(r.Intn(12) > 0), 0, d)
		if depth == 0 && s.prop != "C07" && r.Intn(6) == 0 {
			o.Sub = []Op{s.randSub(r)}
		}
		return o
	case x < 11:
		o := op("Refresh", 0, f, kind, b2i(r.Intn(12) > 0), 0, d)
		if depth == 0 && s.prop != "C07" && r.Intn(6) == 0 {
			o.Sub = []Op{s.randSub(r)}
		}
		return o
	case x < 14:
		if f > 0 && r.Intn(2) == 0 {
			f = -1
		}
		o := op("Clear", 0, f, kind, 0, d)
		if depth == 0 && s.prop != "C07" && r.Intn(6) == 0 {
			o.Sub = []Op{s.randOp(r, bare, 1)} // a clear function may use the cache
		}
		return o
	case x < 16:
		return op("Raw")
	case x < 17 && !bare && s.prop != "C07":
		return op("SetRefresh", 1+r.Intn(3))
	case x < 18 && !bare:
		return op("SetClear", r.Intn(3))
	case x < 19 && !bare:
		return op([]string{"GetRefresh", "GetClear"}[r.Intn(2)])
	case x < 20:
		return op([]string{"Last", "LastErr", "LastTime", "LastErrTime", "MaxAge", "MaxErrAge"}[r.Intn(6)])
	}
	return op("Adv", []int{1, 3, 5, 9, 10, 11, 20, 50, 1000}[r.Intn(9)])
}

// randSub: what a refresh function may do with its own cache
func (s *rcSys) randSub(r *rand.Rand) Op {
	switch r.Intn(4) {
	case 0:
		return op("Clear", 0, -1, 0, 0, 0)
	case 1:
		return op("Last")
	case 2:
		return op("LastErr")
	}
	return op("Raw")
}

func (s *rcSys) Random(r *rand.Rand) Scenario {
	ages := ints(-1, 0, 10, 10, 11, 20, 1, 50, rcBig, rcBig-1, -rcBig, 300)
	eages := ints(0, 0, 10, 10, 5, 20, -1, rcBig, rcBig-1, 1, 50, 700)
	bare := r.Intn(5) == 0
	sc := Scenario{Cfg: rcCfg(ages[r.Intn(len(ages))], eages[r.Intn(len(eages))], r.Intn(3), r.Intn(len(rcUnits)), b2i(bare))}
	k := 0
	seqn := func(n int) (p []Op) {
		for ; n > 0; n-- {
			p = append(p, s.randOp(r, bare, 0))
		}
		return rcNumber(p, &k)
	}
	if s.prop != "C08" {
		sc.Phases = [][][]Op{{seqn(6 + r.Intn(14))}}
		return sc
	}
	sc.Phases = append(sc.Phases, [][]Op{seqn(r.Intn(4))})
	var th [][]Op
	for t, n := 1, 2+r.Intn(3); t <= n; t++ {
		th = append(th, seqn(1+r.Intn(2)))
	}
	sc.Phases = append(sc.Phases, th, [][]Op{seqn(1 + r.Intn(3))})
	return sc
}
