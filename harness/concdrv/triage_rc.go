package concdrv

// Transcription of spec/RefreshCache.tla for triage.

type rcPC int8

const (
	rcVal rcPC = iota
	rcDat
	rcEr
	rcRdErr
	rcRaw
	rcRaw2
	rcAcq
	rcVal2
	rcDat2
	rcEr2
	rcRdErr2
	rcReady
	rcRun
	rcPub
	rcPub2
	rcPub3
	rcE1
	rcE0
	rcOld
	rcOld2
	rcZap
	rcCReady
	rcGo
	rcDone
)

type rcPend struct {
	used   bool
	op     string
	arg    int32
	fid    int32
	pc     rcPC
	r      [2]int32
	nr     int8
	from   int8 // first moment that counts
	old    int32
	x      int32
	fs, cs uint32
	out    [3]int32
	z      bool
}

type rcState struct {
	now                      int8 // index of the moment
	data, last, err, lastErr int32
	since                    bool
	lock                     int8
	rfun, cfun               int8
	p                        [8]rcPend
}

type rcModel struct {
	maxAge, errAge int
	times          []int
	slots          map[int]int
}

func (x *rcModel) initial(c []int) rcState {
	x.maxAge, x.errAge = c[0], c[1]
	x.times = []int{0}
	x.slots = map[int]int{}
	return rcState{last: -1, lastErr: -1, since: true, lock: -1, rfun: 1}
}

func (x *rcModel) slot(t int) int {
	i, ok := x.slots[t]
	if !ok {
		i = len(x.slots)
		x.slots[t] = i
	}
	return i
}

func (x *rcModel) fresh(tm int, stamp int32, age int, forever bool) bool {
	if stamp < 0 {
		return false
	}
	if forever {
		return true
	}
	d := x.times[tm] - int(stamp)
	if d < 0 {
		d = 0
	}
	return d < age
}

func (x *rcModel) valFresh(s *rcState, tm int) bool {
	return x.fresh(tm, s.last, x.maxAge, x.maxAge < 0)
}
func (x *rcModel) errFresh(s *rcState, tm int) bool {
	return x.errAge > 0 && x.fresh(tm, s.lastErr, x.errAge, false)
}

func (p *rcPend) fin(r ...int32) {
	p.pc = rcDone
	p.nr = int8(len(r))
	p.r = [2]int32{}
	copy(p.r[:], r)
}

func (x *rcModel) silent(s rcState, e *Ev, emit func(rcState)) {
	if e.E == "call" {
		return
	}
	for i := range s.p {
		if !s.p[i].used {
			continue
		}
		n := s
		p := &n.p[i]
		look := func(f func(*rcState, int) bool, yes, no rcPC) {
			y, o := false, false
			for tm := int(p.from); tm <= int(s.now); tm++ {
				if f(&s, tm) {
					y = true
				} else {
					o = true
				}
			}
			if y {
				p.pc = yes
				emit(n)
			}
			if o {
				p.pc = no
				emit(n)
			}
		}
		switch p.pc {
		case rcVal:
			look(x.valFresh, rcDat, rcEr)
			look(x.errFresh, rcE1, rcE0)
		case rcE1:
			look(x.valFresh, rcDat, rcRdErr)
		case rcE0:
			no := rcAcq
			if p.op == "Raw" {
				no = rcRaw
			}
			look(x.valFresh, rcDat, no)
		case rcVal2:
			look(x.valFresh, rcDat2, rcEr2)
		case rcEr:
			no := rcAcq
			if p.op == "Raw" {
				no = rcRaw
			}
			look(x.errFresh, rcRdErr, no)
		case rcEr2:
			look(x.errFresh, rcRdErr2, rcReady)
		case rcDat, rcDat2:
			if p.pc == rcDat2 {
				n.lock = -1
			}
			p.fin(n.data, 0)
			emit(n)
		case rcRdErr, rcRdErr2:
			if p.pc == rcRdErr2 {
				n.lock = -1
			}
			p.fin(0, n.err)
			emit(n)
		case rcRaw:
			p.pc, p.old = rcRaw2, n.data
			emit(n)
		case rcRaw2:
			o := p.old
			p.fin(o, n.err)
			emit(n)
			if n.since {
				p.fin(o, 0)
				emit(n)
			}
		case rcAcq:
			if n.lock == -1 {
				n.lock = int8(i)
				p.pc = rcReady
				if p.op == "Get" {
					p.pc = rcVal2
				}
				p.from = n.now
				emit(n)
			}
		case rcPub, rcPub2, rcPub3:
			if p.pc != rcPub3 && p.out[0] < 2 && !p.z {
				m := n
				q := &m.p[i]
				q.z = true
				if p.out[0] == 0 && m.lastErr != -1 {
					m.lastErr = -1
					emit(m)
				}
				if p.out[0] == 1 && m.last != -1 {
					m.last = -1
					emit(m)
				}
			}
			over := func() {
				n.lock = -1
				if p.out[0] == 0 {
					p.fin(p.out[1], 0)
				} else {
					p.fin(p.out[1], p.out[2])
				}
			}
			switch p.pc {
			case rcPub:
				switch p.out[0] {
				case 0:
					n.data, n.since, p.pc = p.out[1], true, rcPub2
				case 1:
					n.err, n.since, p.pc = p.out[2], false, rcPub2
				default:
					n.lock = -1
					p.fin(-2, -2)
				}
				emit(n)
			case rcPub2:
				if p.z {
					over()
				} else {
					p.pc = rcPub3
				}
				for tm := int(p.from); tm <= int(s.now); tm++ {
					if p.out[0] == 0 {
						n.last = int32(x.times[tm])
					} else {
						n.lastErr = int32(x.times[tm])
					}
					emit(n)
				}
			case rcPub3:
				if p.out[0] == 0 {
					n.lastErr = -1
				} else {
					n.last = -1
				}
				over()
				emit(n)
			}
		case rcOld, rcZap, rcOld2:
			if p.pc == rcOld {
				m := n
				m.last = -1
				m.p[i].pc = rcOld2
				emit(m)
				p.pc, p.old = rcZap, n.data
				emit(n)
				continue
			}
			if p.pc == rcOld2 {
				p.old = n.data
			} else {
				n.last = -1
			}
			fs := p.cs
			if p.fid < 0 {
				fs = 1
			} else if p.fid > 0 {
				fs = 1 << uint(p.fid)
			}
			for f := 0; f < 32; f++ {
				if fs&(1<<f) == 0 {
					continue
				}
				m := n
				q := &m.p[i]
				q.x = int32(f)
				if f == 0 {
					q.fin(0)
				} else {
					q.pc = rcCReady
				}
				emit(m)
			}
		case rcGo:
			switch p.op {
			case "SetRefresh":
				n.rfun = int8(p.arg)
				p.fin()
			case "SetClear":
				n.cfun = int8(p.arg)
				p.fin()
			case "GetRefresh":
				p.fin(int32(n.rfun))
			case "GetClear":
				p.fin(int32(n.cfun))
			case "Last", "LastTime":
				p.fin(n.last)
			case "LastErr", "LastErrTime":
				p.fin(n.lastErr)
			default:
				p.fin(1)
			}
			if p.op[0] == 'S' {
				for j := range n.p {
					if n.p[j].used {
						n.p[j].fs |= 1 << uint(n.rfun)
						n.p[j].cs |= 1 << uint(n.cfun)
					}
				}
			}
			emit(n)
		}
	}
}

func (x *rcModel) step(s rcState, e *Ev) (rcState, bool) {
	if e.E == "adv" {
		nt := x.times[s.now] + e.A[0]
		if int(s.now)+1 == len(x.times) {
			x.times = append(x.times, nt)
		}
		s.now++
		if s.now > 100 {
			return s, false
		}
		return s, true
	}
	i := x.slot(e.T)
	if i >= len(s.p) {
		return s, false
	}
	p := &s.p[i]
	switch e.E {
	case "call":
		if p.used {
			return s, false
		}
		*p = rcPend{used: true, op: e.Op, from: s.now, fs: 1 << uint(s.rfun), cs: 1 << uint(s.cfun)}
		if len(e.A) > 0 {
			p.arg = int32(e.A[0])
		}
		if len(e.A) > 1 {
			p.fid = int32(e.A[1])
		}
		switch e.Op {
		case "Get", "Raw":
			p.pc = rcVal
		case "Refresh":
			p.pc = rcAcq
		case "Clear":
			p.pc = rcOld
		default:
			p.pc = rcGo
		}
		return s, true
	case "ret":
		if !p.used || p.pc != rcDone || int(p.nr) != len(e.R) {
			return s, false
		}
		for j, v := range e.R {
			if p.r[j] != int32(v) {
				return s, false
			}
		}
		*p = rcPend{}
		return s, true
	case "rbegin":
		if !p.used || p.pc != rcReady || e.A[3] != 1 || p.arg != int32(e.A[1]) || s.data != int32(e.A[2]) {
			return s, false
		}
		if p.fid == 0 && p.fs&(1<<uint(e.A[0])) == 0 || p.fid != 0 && int(p.fid) != e.A[0] {
			return s, false
		}
		p.pc = rcRun
		return s, true
	case "cbegin":
		if !p.used || p.pc != rcCReady || e.A[3] != 1 || p.arg != int32(e.A[1]) || p.old != int32(e.A[2]) || int(p.x) != e.A[0] {
			return s, false
		}
		p.pc = rcRun
		return s, true
	case "rend":
		if p.pc != rcRun {
			return s, false
		}
		p.pc = rcPub
		p.from = s.now
		for j := range p.out {
			p.out[j] = int32(e.A[j])
		}
		return s, true
	case "cend":
		if p.pc != rcRun {
			return s, false
		}
		if e.A[0] == 2 {
			p.fin(-2)
		} else {
			p.fin(int32(e.A[1]))
		}
		return s, true
	}
	return s, false
}
