package concdrv

type scEnt struct {
	k      int8
	lo, hi int32
	m      int32
	x, ok  bool
}

type scPend struct {
	op        string
	a         [3]int32
	t0        int32
	cap       int8 // entry index + 1
	lv0, done bool
	r         [2]int32
	nr        int8
	seen, lv  uint32
	snap      uint32
	gone, vis uint8
	stop      bool
	present   bool
}

type scState struct {
	now, since   int32
	phys         [4]int8 // entry index + 1
	ent          [20]scEnt
	p            [7]scPend
	owed         [7]uint32
	open, trimOK bool
}

type scModel struct {
	prof  int
	track bool
	ids   map[int32]int8
	idOf  []int32
	ths   map[int]int
}

func (x *scModel) idx(id int32) int8 {
	i, ok := x.ids[id]
	if !ok {
		i = int8(len(x.idOf))
		x.ids[id] = i
		x.idOf = append(x.idOf, id)
	}
	return i
}

func (x *scModel) slot(t int) int {
	i, ok := x.ths[t]
	if !ok {
		i = len(x.ths)
		x.ths[t] = i
	}
	return i
}

func (x *scModel) initial(c []int) (s scState) {
	x.prof = c[0]
	x.track = c[0] != 4 && c[1] == 1
	x.ids = map[int32]int8{}
	x.ths = map[int]int{}
	x.slot(0)
	s.open, s.trimOK = true, true
	return
}

func (x *scModel) see(s *scState) {
	for i := range s.p {
		p := &s.p[i]
		if !p.present || p.op != "Range" {
			continue
		}
		for k := 1; k < 4; k++ {
			if s.phys[k] == 0 {
				p.gone |= 1 << k
			} else {
				p.seen |= 1 << (s.phys[k] - 1)
			}
		}
		for j := range s.ent {
			if p.seen&(1<<j) != 0 {
				if s.now <= s.ent[j].hi {
					p.lv |= 1 << j
				}
				if s.now > s.ent[j].lo {
					p.gone |= 1 << s.ent[j].k
				}
			}
		}
	}
}

func (x *scModel) owe(s *scState, t int, i int8) {
	if x.track {
		s.owed[t] |= 1 << i
	}
}

func (x *scModel) silent(s scState, e *Ev, emit func(scState)) {
	if e.E == "call" {
		return
	}
	reap := func(t int, k int) {
		if s.phys[k] != 0 && s.ent[s.phys[k]-1].x {
			n := s
			x.owe(&n, t, s.phys[k]-1)
			n.phys[k] = 0
			x.see(&n)
			emit(n)
		}
	}
	if s.trimOK {
		for k := 1; k < 4; k++ {
			reap(0, k)
		}
	}
	live := func(i int8) bool { return s.now <= s.ent[i].hi }
	exp := func(i int8) bool { return s.now > s.ent[i].lo }
	for t := range s.p {
		if !s.p[t].present {
			continue
		}
		p := s.p[t]
		k := p.a[0]
		switch p.op {
		case "Load", "LoadOrStore", "CompareValueAndDelete":
			reap(t, int(k))
		case "Range":
			for k := 1; k < 4; k++ {
				reap(t, k)
			}
		}
		if p.done || p.op == "Range" {
			continue
		}
		n := s
		q := &n.p[t]
		fin := func(r ...int32) {
			q.done = true
			q.nr = int8(len(r))
			copy(q.r[:], r)
			x.see(&n)
			emit(n)
			n = s
		}
		set := func() { x.see(&n); emit(n); n = s }
		var cur int8
		if p.op != "Clear" && p.op != "Close" && p.op != "Start" {
			cur = s.phys[k]
		}
		insert := func() {
			i := x.idx(p.a[1])
			n.ent[i] = scEnt{k: int8(k), lo: scShift(p.t0, p.a[2]), hi: scShift(s.now, p.a[2]), m: s.now, ok: true}
			n.ent[i].x = s.now > n.ent[i].lo
			n.phys[k] = i + 1
		}
		switch p.op {
		case "Store":
			insert()
			fin()
		case "Load", "LoadOrStore", "LoadAndDelete":
			switch {
			case p.cap == 0 && cur == 0:
				if p.op == "LoadOrStore" {
					insert()
					fin(p.a[1], 0)
				} else {
					fin(0, 0)
				}
			case p.cap == 0:
				q.cap = cur
				if p.op == "LoadAndDelete" {
					n.phys[k] = 0
					x.owe(&n, t, cur-1)
				}
				set()
			default:
				if live(p.cap - 1) {
					fin(x.idOf[p.cap-1], 1)
				}
				if exp(p.cap - 1) {
					if p.op == "LoadOrStore" {
						q.cap = 0
						set()
					} else {
						fin(0, 0)
					}
				}
			}
		case "Delete":
			if cur != 0 {
				n.phys[k] = 0
				x.owe(&n, t, cur-1)
			}
			fin()
		case "CompareAndDelete":
			if cur != 0 && x.idOf[cur-1] == p.a[1] {
				n.phys[k] = 0
				x.owe(&n, t, cur-1)
				fin(1)
			} else {
				fin(0)
			}
		case "CompareValueAndDelete":
			switch {
			case p.cap == 0:
				if cur != 0 && (x.idOf[cur-1] == p.a[1] || x.idOf[cur-1] >= 90000 && p.a[1] >= 90000) {
					q.cap = cur
					set()
				} else {
					fin(0)
				}
			case !p.lv0:
				if live(p.cap - 1) {
					q.lv0 = true
					set()
				}
				if exp(p.cap - 1) {
					fin(0)
				}
			default:
				if cur == p.cap {
					n.phys[k] = 0
					x.owe(&n, t, cur-1)
					fin(1)
				} else {
					q.cap, q.lv0 = 0, false
					set()
				}
			}
		case "Clear":
			left := false
			for j := 1; j < 4; j++ {
				if c := s.phys[j]; c != 0 {
					n.phys[j] = 0
					x.owe(&n, t, c-1)
					set()
					if p.snap&(1<<(c-1)) != 0 {
						left = true
					}
				}
			}
			if !left {
				fin()
			}
		case "AddExp", "SetExp":
			i := x.idx(p.a[1])
			if p.op == "AddExp" {
				n.ent[i].lo = scShift(n.ent[i].lo, p.a[2])
				n.ent[i].hi = scShift(n.ent[i].hi, p.a[2])
			} else {
				n.ent[i].lo, n.ent[i].hi = p.a[2], p.a[2]
			}
			n.ent[i].m = s.now
			n.ent[i].x = n.ent[i].x || s.now > n.ent[i].lo
			fin()
		case "IsExpired":
			i := x.idx(p.a[1])
			if live(i) {
				fin(0)
			}
			if exp(i) {
				fin(1)
			}
		case "Close":
			n.open = false
			fin()
		case "Start":
			if !n.open {
				n.since = n.now
			}
			n.open, n.trimOK = true, true
			fin()
		}
	}
}

func (x *scModel) step(s scState, e *Ev) (scState, bool) {
	t := 0
	if e.E == "call" || e.E == "ret" || e.E == "visit" || e.E == "cb" || e.E == "done" {
		t = x.slot(e.T)
		if t >= len(s.p) || len(x.idOf) > 18 {
			return s, false
		}
	}
	p := &s.p[t]
	switch e.E {
	case "call":
		if p.present {
			return s, false
		}
		*p = scPend{op: e.Op, t0: s.now, present: true}
		for i, a := range e.A {
			p.a[i] = int32(a)
		}
		if e.Op == "Clear" {
			for k := 1; k < 4; k++ {
				if s.phys[k] != 0 {
					p.snap |= 1 << (s.phys[k] - 1)
				}
			}
		}
		x.see(&s)
		return s, true
	case "ret":
		if !p.present {
			return s, false
		}
		if p.op == "Range" {
			if !p.stop && (p.vis|p.gone)&0xe != 0xe {
				return s, false
			}
		} else {
			if !p.done || int(p.nr) != len(e.R) {
				return s, false
			}
			for i, r := range e.R {
				if p.r[i] != int32(r) {
					return s, false
				}
			}
		}
		*p = scPend{}
		return s, true
	case "visit":
		k, i := e.A[0], x.idx(int32(e.A[1]))
		if p.stop || p.vis&(1<<k) != 0 || p.lv&(1<<i) == 0 || int(s.ent[i].k) != k {
			return s, false
		}
		p.vis |= 1 << k
		p.stop = e.A[2] == 0
		return s, true
	case "cb":
		i := x.idx(int32(e.A[0]))
		if s.owed[t]&(1<<i) == 0 {
			return s, false
		}
		s.owed[t] &^= 1 << i
		return s, true
	case "done":
		return s, s.owed[t] == 0
	case "adv":
		s.now += int32(e.A[0])
		for i := range s.ent {
			if s.ent[i].ok && s.now > s.ent[i].lo {
				s.ent[i].x = true
			}
		}
		x.see(&s)
		return s, true
	case "idle":
		if x.prof == 6 {
			if s.owed[0] != 0 {
				return s, false
			}
			if s.open {
				for k := 1; k < 4; k++ {
					if s.phys[k] != 0 {
						if e := s.ent[s.phys[k]-1]; s.now > max(e.hi, e.m, s.since)+20000 {
							return s, false
						}
					}
				}
			}
		}
		s.trimOK = s.open
		for i := range s.ent {
			s.ent[i].x = s.ent[i].ok && s.now > s.ent[i].lo
		}
		return s, true
	}
	return s, false
}

func scShift(x, d int32) int32 {
	if x >= scFar || x <= -scFar {
		return x
	}
	return max(-scFar, min(scFar, x+d))
}
