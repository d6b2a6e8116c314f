package concdrv

import "math/rand"

// dfs explores every schedule with at most bound preemptions, depth first.
type dfs struct {
	bound    int
	stack    []node
	depth    int
	pre      int
	diverged bool
	Runs     int
}

type node struct {
	opts []int // in the order they are tried
	idx  int
}

func (d *dfs) Choose(opts []int, cur int, free bool) int {
	if d.diverged {
		for _, o := range opts {
			if o == cur {
				return o
			}
		}
		return opts[0]
	}
	has := false
	for _, o := range opts {
		if o == cur {
			has = true
		}
	}
	var x int
	if d.depth < len(d.stack) {
		nd := d.stack[d.depth]
		x = nd.opts[nd.idx]
		ok := false
		for _, o := range opts {
			if o == x {
				ok = true
			}
		}
		if !ok { // map iteration order made the code behave differently: finish this run anyhow
			d.diverged = true
			d.stack = d.stack[:d.depth]
			return opts[0]
		}
	} else {
		var order []int
		if has {
			order = append(order, cur)
		}
		if !has || free || d.pre < d.bound {
			for _, o := range opts {
				if o != cur {
					order = append(order, o)
				}
			}
		}
		d.stack = append(d.stack, node{order, 0})
		x = order[0]
	}
	d.depth++
	if has && x != cur && !free {
		d.pre++
	}
	return x
}

// next prepares the following schedule; false: all explored.
func (d *dfs) next() bool {
	d.Runs++
	for len(d.stack) > 0 {
		n := &d.stack[len(d.stack)-1]
		if n.idx+1 < len(n.opts) {
			n.idx++
			break
		}
		d.stack = d.stack[:len(d.stack)-1]
	}
	d.depth, d.pre, d.diverged = 0, 0, false
	return len(d.stack) > 0
}

// rnd switches with a fixed probability, or follows random priorities with a few change points (PCT).
type rnd struct {
	r    *rand.Rand
	p    float64
	prio map[int]float64
	chg  map[int]bool
	n    int
}

func newRnd(r *rand.Rand, length int) *rnd {
	x := &rnd{r: r}
	if r.Intn(2) == 0 {
		x.p = []float64{0.03, 0.1, 0.25, 0.5}[r.Intn(4)]
	} else {
		x.prio = map[int]float64{}
		x.chg = map[int]bool{}
		for i := 1 + r.Intn(4); i > 0; i-- {
			x.chg[r.Intn(length)] = true
		}
	}
	return x
}

func (x *rnd) Choose(opts []int, cur int, free bool) int {
	x.n++
	if x.prio == nil {
		for _, o := range opts {
			if o == cur && x.r.Float64() >= x.p {
				return cur
			}
		}
		return opts[x.r.Intn(len(opts))]
	}
	best, bp := -1, -1e9
	for _, o := range opts {
		if _, ok := x.prio[o]; !ok {
			x.prio[o] = x.r.Float64()
		}
		if x.prio[o] > bp {
			best, bp = o, x.prio[o]
		}
	}
	if x.chg[x.n] {
		x.prio[best] = -float64(x.n)
		delete(x.chg, x.n)
		x.n--
		return x.Choose(opts, cur, free)
	}
	return best
}
