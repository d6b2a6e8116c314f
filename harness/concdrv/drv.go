// Package concdrv executes small concurrent programs on the real containers under the controlled scheduler and
// records what callers observe: calls, results and callbacks, in real-time order.
package concdrv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"sync"
	"time"

	"verifharness/vsched"
)

// Ev is one observation.
type Ev struct {
	E  string `json:"e"`  // call, ret, visit, cb, rbegin, ...
	T  int    `json:"t"`  // thread
	Op string `json:"op"` // operation
	A  []int  `json:"a"`
	R  []int  `json:"r"`
}

// Op is an operation of a program; Sub are operations performed by its callback, one per invocation.
type Op struct {
	Op  string `json:"op"`
	A   []int  `json:"a"`
	Sub []Op   `json:"sub,omitempty"`
}

// Scenario: phases run one after another; the threads of a phase run concurrently.
type Scenario struct {
	Cfg    []int    `json:"cfg"`
	Phases [][][]Op `json:"phases"`
	Cb     []Op     `json:"cb,omitempty"`   // performed by the first invocations of a callback
	Wide   int      `json:"wide,omitempty"` // keys 1..Wide instead of 1..3; see project
}

// System is one kind of container under test.
type System interface {
	Reset(sc *Scenario) // a fresh instance
	Exec(t int, o Op)   // performs one operation as thread t, logging it
	Idle()              // called when a phase has ended and everything is quiet
	Close()             // end of the run
	Systematic(yield func(Scenario) bool)
	Random(r *rand.Rand) Scenario
	Judge(c []int, e []Ev) int // triage, see triage.go
}

var (
	logMu sync.Mutex
	evs   []Ev
)

func logEv(e string, t int, op string, a, r []int) {
	if a == nil {
		a = []int{}
	}
	if r == nil {
		r = []int{}
	}
	logMu.Lock()
	evs = append(evs, Ev{e, t, op, a, r})
	logMu.Unlock()
}

func ints(x ...int) []int { return x }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// exec performs op and logs a panic as an event no specification allows.
func exec(s System, t int, o Op) {
	defer func() {
		if x := recover(); x != nil {
			logEv("panic", t, o.Op, nil, nil)
			if os.Getenv("CONC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "panic:", x)
			}
		}
	}()
	s.Exec(t, o)
}

// execute runs a scenario once; ok is false if some thread never finished.
func execute(s System, sc *Scenario, p vsched.Policy) (ok bool) {
	evs = evs[:0]
	s.Reset(sc)
	for _, ph := range sc.Phases {
		bodies := make([]func(), len(ph))
		for i, prog := range ph {
			bodies[i] = func() {
				for j, o := range prog {
					if j > 0 {
						vsched.Boundary()
					}
					exec(s, i+1, o)
				}
			}
		}
		out, stuck := vsched.Run(p, 30000+200*sc.Wide, bodies...)
		if out != vsched.Done {
			sort.Ints(stuck)
			k := "deadlock"
			if out == vsched.Livelock {
				k = "livelock"
			}
			for _, t := range stuck {
				logEv(k, t+1, "", nil, nil)
			}
			return false
		}
		s.Idle()
	}
	s.Close()
	return true
}

// normal sorts the events of every block of calls and every block of returns: the verdict depends only on which
// returns precede which calls.
func normal(e []Ev, sys string) []Ev {
	r := append([]Ev(nil), e...)
	i := 0
	for i < len(r) {
		j := i
		for j < len(r) && r[j].E == r[i].E && (r[i].E == "call" || r[i].E == "ret") {
			j++
		}
		if j == i {
			i++
			continue
		}
		x := r[i:j]
		sort.SliceStable(x, func(a, b int) bool { return x[a].T < x[b].T })
		i = j
	}
	return r
}

// project restricts a history over many keys to three of them, renamed to 1..3: operations on the others and what
// they did vanish, those on the whole container stay.  What is a behaviour of the container is one of its
// restriction, too.  keyOf gives the key an event is about, 0 if it is about all of them; events of dropped
// operations are recognised by their thread.
func project(e []Ev, wide, first int, keyOf func(*Ev) int) (r []Ev) {
	drop := map[int]bool{}
	for i := range e {
		x := e[i]
		k := keyOf(&x)
		in := k == 0 || k >= first && k < first+3
		switch x.E {
		case "call":
			drop[x.T] = !in
			if !in {
				continue
			}
		case "ret", "done":
			if drop[x.T] {
				continue
			}
		default:
			if !in {
				continue
			}
		}
		if k > 0 && len(x.A) > 0 && x.A[0] == k && (x.E == "call" || x.E == "visit") {
			x.A = append([]int{k - first + 1}, x.A[1:]...)
		}
		r = append(r, x)
	}
	return
}

// single: one thread at a time, so the schedules differ only by what the code itself leaves open.
func (sc *Scenario) single() bool {
	for _, p := range sc.Phases {
		if len(p) > 1 {
			return false
		}
	}
	return true
}

type Config struct {
	Sys     string
	Out     string
	Seed    int64
	Part, N int           // this process handles scenarios = Part mod N
	Budget  time.Duration // wall clock
	Bound   int           // preemptions of the systematic part
	MaxDFS  int           // schedules per systematic scenario
	RndRuns int           // schedules per random scenario
	Cap     int           // distinct histories
	NoSys   bool
	Scen    string // one scenario (JSON) instead of the generated ones
	Prop    string
}

type Stats struct {
	Scenarios, Schedules, Complete, Histories, Events, RndScenarios int
	Suspicious, Written, Systematic                                 int
	Ops                                                             map[string]int
}

// filter removes what a property does not look at, so that fewer distinct histories remain.
type filterer interface{ Filter([]Ev) []Ev }

// splitter: several histories per run.
type splitter interface {
	Split(sc *Scenario, e []Ev) ([][]int, [][]Ev)
}

type rec struct {
	C    []int           `json:"c"`
	Ev   []Ev            `json:"ev"`
	Sus  int             `json:"sus"`
	Scen json.RawMessage `json:"scen"`
}

// Drive explores and writes the distinct histories.  wall is read outside the bubble.
func Drive(s System, c Config, wall func() time.Duration, dead func()) Stats {
	st := Stats{Ops: map[string]int{}}
	seen := map[string]bool{}
	f, err := os.Create(c.Out)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	var emit1 func(sc *Scenario, cf []int, e []Ev)
	emit := func(sc *Scenario) {
		e := evs
		if sp, ok := s.(splitter); ok {
			cs, hs := sp.Split(sc, e)
			for i := range cs {
				emit1(sc, cs[i], hs[i])
			}
			return
		}
		if fl, ok := s.(filterer); ok {
			e = fl.Filter(e)
		}
		emit1(sc, sc.Cfg, e)
	}
	emit1 = func(sc *Scenario, cf []int, e []Ev) {
		e = normal(e, c.Sys)
		k, _ := json.Marshal(struct {
			C  []int `json:"c"`
			Ev []Ev  `json:"ev"`
		}{cf, e})
		if seen[string(k)] {
			return
		}
		seen[string(k)] = true
		st.Histories++
		if len(seen) > 400000 { // bound memory; a history may then be looked at twice
			clear(seen)
		}
		at := s.Judge(cf, e) + 1 // first event that cannot be explained, from 1
		sus := at > 0
		if sus {
			st.Suspicious++
		}
		if c.Cap > 0 && st.Written >= c.Cap && !(sus && st.Suspicious < 50) {
			return
		}
		st.Written++
		st.Events += len(e)
		for _, x := range e {
			if x.E == "call" {
				st.Ops[x.Op]++
			}
		}
		sj, _ := json.Marshal(sc)
		b, _ := json.Marshal(rec{cf, e, at, sj})
		w.Write(b)
		w.WriteByte('\n')
	}
	stop := func() {
		w.Flush()
		f.Close()
		dead()
	}
	one := func(sc Scenario) bool {
		st.Scenarios++
		d := &dfs{bound: c.Bound}
		for n := 0; ; n++ {
			ok := execute(s, &sc, d)
			st.Schedules++
			emit(&sc)
			if !ok {
				stop()
			}
			if !d.next() {
				st.Complete++
				break
			}
			if c.MaxDFS > 0 && n >= c.MaxDFS {
				break
			}
		}
		return wall() < c.Budget*6/10
	}
	r := rand.New(rand.NewSource(c.Seed*1000003 + int64(c.Part)))
	if c.Scen != "" {
		var sc Scenario
		if err := json.Unmarshal([]byte(c.Scen), &sc); err != nil {
			panic(err)
		}
		one(sc)
		for i := 0; i < 20*c.RndRuns; i++ {
			ok := execute(s, &sc, newRnd(r, 80))
			emit(&sc)
			if !ok {
				stop()
			}
		}
	} else {
		total := c.Cap
		if !c.NoSys {
			var all []Scenario
			s.Systematic(func(sc Scenario) bool { all = append(all, sc); return true })
			rand.New(rand.NewSource(7)).Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
			st.Systematic = len(all)
			for i := c.Part; i < len(all); i += c.N {
				if total > 0 {
					c.Cap = total*6/10*(i+c.N)/len(all) + 1 // an even sample
				}
				if !one(all[i]) {
					break
				}
			}
		}
		c.Cap = total
		for wall() < c.Budget {
			sc := s.Random(r)
			st.RndScenarios++
			runs := c.RndRuns
			if sc.Wide > 0 {
				runs = min(runs, 6)
				if sc.Wide > 300 {
					runs = 1
				}
			}
			if sc.single() && c.Sys == "rwmap" {
				runs = 2
			}
			for i := 0; i < runs; i++ {
				ok := execute(s, &sc, newRnd(r, 80))
				st.Schedules++
				emit(&sc)
				if !ok {
					stop()
				}
			}
		}
	}
	w.Flush()
	f.Close()
	return st
}

// wideN picks the number of keys of a wide scenario; the very wide ones are rare because each costs a hundred histories
func wideN(r *rand.Rand) int {
	switch r.Intn(24) {
	case 0:
		return []int{300, 1300}[r.Intn(2)]
	case 1, 2:
		return 140
	}
	return []int{6, 12, 24, 45}[r.Intn(4)]
}

// sampled: of the very wide histories only a sample of the restrictions is kept (and every one that looks wrong)
func sampled(wide, first int) bool { return wide <= 300 || first%97 < 3 }
