package concdrv

// Triage: a transcription of the TLA+ specifications that decides which histories are worth showing to TLC first.
// It never decides a verdict: whatever it cannot explain is handed to TLC, which does, together with a sample of
// the rest.

type model[S comparable] interface {
	initial(c []int) S
	step(s S, e *Ev) (S, bool)
	silent(s S, e *Ev, emit func(S))
}

// judge returns the index of the first event that no behaviour explains, or -1.
func judge[S comparable](m model[S], c []int, ev []Ev) int {
	cur := map[S]bool{m.initial(c): true}
	for i := range ev {
		e := &ev[i]
		work := make([]S, 0, len(cur))
		for s := range cur {
			work = append(work, s)
		}
		for len(work) > 0 {
			s := work[len(work)-1]
			work = work[:len(work)-1]
			m.silent(s, e, func(n S) {
				if !cur[n] {
					cur[n] = true
					work = append(work, n)
				}
			})
			if len(cur) > 20000 {
				return i // too big to triage: let TLC look at it
			}
		}
		nxt := map[S]bool{}
		for s := range cur {
			if n, ok := m.step(s, e); ok {
				nxt[n] = true
			}
		}
		if len(nxt) == 0 {
			return i
		}
		cur = nxt
	}
	return -1
}

// ---- rwmap ----

const rwAbsent = -1

type rwPend struct {
	t       int8
	op      string
	a       [3]int16
	na      int8
	done    bool
	r       [2]int16
	nr      int8
	seen    [4]uint64 // Range only: values each key had
	gone    [4]bool
	vis     [4]bool
	stop    bool
	present bool
}

type rwState struct {
	m [4]int16
	p [8]rwPend
}

type rwModel struct {
	nan bool
	idx map[int16]uint
}

func (x *rwModel) bit(v int16) uint64 {
	i, ok := x.idx[v]
	if !ok {
		i = uint(len(x.idx))
		x.idx[v] = i
	}
	return 1 << i
}

func (x *rwModel) initial(c []int) (s rwState) {
	x.nan = c[0] == 6
	x.idx = map[int16]uint{}
	for i := range s.m {
		s.m[i] = rwAbsent
	}
	return
}

func (x *rwModel) witness(s *rwState) {
	for i := range s.p {
		if p := &s.p[i]; p.present && p.op == "Range" {
			for k := 1; k < 4; k++ {
				if s.m[k] == rwAbsent {
					p.gone[k] = true
				} else {
					p.seen[k] |= x.bit(s.m[k])
				}
			}
		}
	}
}

func (x *rwModel) silent(s rwState, e *Ev, emit func(rwState)) {
	if e.E != "ret" && e.E != "visit" {
		return
	}
	for i := range s.p {
		if p := s.p[i]; p.present && !p.done && p.op != "Range" {
			n := s
			x.apply(&n, &n.p[i])
			n.p[i].done = true
			x.witness(&n)
			emit(n)
		}
	}
}

func (x *rwModel) apply(s *rwState, p *rwPend) {
	k := p.a[0]
	v := int16(rwAbsent)
	if p.op != "Clear" {
		v = s.m[k]
	}
	found := func() {
		p.nr = 2
		if v != rwAbsent {
			p.r = [2]int16{v, 1}
		}
	}
	eq := func() bool { return v != rwAbsent && v == p.a[1] && !(x.nan && v == rwNaN) }
	switch p.op {
	case "Load":
		found()
	case "Store":
		s.m[k] = p.a[1]
	case "LoadOrStore":
		found()
		if v == rwAbsent {
			s.m[k] = p.a[1]
			p.r[0] = p.a[1]
		}
	case "LoadAndDelete":
		found()
		s.m[k] = rwAbsent
	case "Delete":
		s.m[k] = rwAbsent
	case "Swap":
		found()
		s.m[k] = p.a[1]
	case "CompareAndSwap":
		p.nr = 1
		if eq() {
			s.m[k] = p.a[2]
			p.r[0] = 1
		}
	case "CompareAndDelete":
		p.nr = 1
		if eq() {
			s.m[k] = rwAbsent
			p.r[0] = 1
		}
	case "Clear":
		for i := range s.m {
			s.m[i] = rwAbsent
		}
	}
}

func (x *rwModel) step(s rwState, e *Ev) (rwState, bool) {
	find := func() *rwPend {
		for i := range s.p {
			if s.p[i].present && int(s.p[i].t) == e.T {
				return &s.p[i]
			}
		}
		return nil
	}
	switch e.E {
	case "call":
		if find() != nil {
			return s, false
		}
		for i := range s.p {
			if !s.p[i].present {
				p := &s.p[i]
				*p = rwPend{t: int8(e.T), op: e.Op, present: true, na: int8(len(e.A))}
				for j, a := range e.A {
					p.a[j] = int16(a)
				}
				if e.Op == "Range" {
					x.witness(&s)
				}
				return s, true
			}
		}
		return s, false
	case "ret":
		p := find()
		if p == nil {
			return s, false
		}
		if p.op == "Range" {
			for k := 1; k < 4; k++ {
				if !p.stop && !p.vis[k] && !p.gone[k] {
					return s, false
				}
			}
		} else {
			if !p.done || int(p.nr) != len(e.R) {
				return s, false
			}
			for j, r := range e.R {
				if int(p.r[j]) != r {
					return s, false
				}
			}
		}
		*p = rwPend{}
		return s, true
	case "visit":
		p := find()
		if p == nil || p.stop || e.A[0] < 1 || e.A[0] > 3 || p.vis[e.A[0]] || p.seen[e.A[0]]&x.bit(int16(e.A[1])) == 0 {
			return s, false
		}
		p.vis[e.A[0]] = true
		p.stop = e.A[2] == 0
		return s, true
	}
	return s, false
}

func (s *rwSys) Judge(c []int, ev []Ev) int {
	if s.prop == "C02" {
		for i, e := range ev {
			if e.E == "call" || e.E == "ret" {
				continue
			}
			if e.E != "quiet" || e.R[0] != e.A[0] || e.R[1] != e.A[0] || e.R[2] != e.A[0] {
				return i
			}
		}
		return -1
	}
	return judge[rwState](&rwModel{}, c, ev)
}
