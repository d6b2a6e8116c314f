// Command seqdrv drives the sequential containers: it replays behaviours generated from the TLA+
// specifications (comparing results and projected states) and records random executions for validation.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
)

// Sys is one container (or several) under test, seen through its public interface.
type Sys interface {
	Reset(cfg []int)
	Exec(op string, a []int) []int
	Proj() [][]int
	RandCfg(r *rand.Rand) []int
	Rand(r *rand.Rand) (string, []int)
}

type Ev struct {
	Op string  `json:"op"`
	A  []int   `json:"a"`
	R  []int   `json:"r"`
	S  [][]int `json:"s"`
}
type Trace struct {
	C  []int `json:"c"`
	Ev []Ev  `json:"ev"`
}
type call struct {
	op string
	a  []int
}

func (c *call) UnmarshalJSON(b []byte) error {
	var x []json.RawMessage
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	if err := json.Unmarshal(x[0], &c.op); err != nil {
		return err
	}
	return json.Unmarshal(x[1], &c.a)
}
func (c call) MarshalJSON() ([]byte, error) { return json.Marshal([]any{c.op, c.a}) }

type Beh struct {
	C []int   `json:"c"`
	H []call  `json:"h"`
	R []int   `json:"r"`
	S [][]int `json:"s"`
}

// ids used for outcomes that no container operation returns
const (
	panicExpected = -777 // a documented panic
	panicked      = -999
	hung          = -998
	notSeen       = -12345 // the state was not looked at
)

var (
	prop   = flag.String("prop", "", "property id (selects the driver and its profile)")
	mode   = flag.String("mode", "", "replay, script or random")
	in     = flag.String("in", "", "behaviours (TLC output)")
	out    = flag.String("out", "", "output file")
	n      = flag.Int("n", 100, "random traces")
	length = flag.Int("len", 40, "operations per random trace")
	seed   = flag.Int64("seed", 1, "seed")
	big    = flag.Int("big", 0, "0: small containers, 1: large ones, 2: very large ones")
)

// watchdog: an operation that does not come back
var (
	opCount atomic.Int64
	onHang  atomic.Pointer[func()]
)

func watchdog() {
	last, since := int64(-1), time.Now()
	var ms runtime.MemStats
	for {
		time.Sleep(200 * time.Millisecond)
		c := opCount.Load()
		if c != last {
			last, since = c, time.Now()
			continue
		}
		stuck := time.Since(since)
		if stuck < time.Second {
			continue
		}
		runtime.ReadMemStats(&ms)
		if stuck > 20*time.Second || ms.HeapAlloc > 3<<30 {
			if f := onHang.Load(); f != nil {
				(*f)()
			}
		}
	}
}

func guard(f func()) (p any) {
	defer func() {
		if x := recover(); x != nil {
			p = x
		}
	}()
	f()
	return nil
}

func step(s Sys, op string, a []int) (r []int) {
	opCount.Add(1)
	if guard(func() { r = s.Exec(op, a) }) != nil {
		return []int{panicked}
	}
	if r == nil {
		r = []int{}
	}
	return r
}
func proj(s Sys) (p [][]int) {
	opCount.Add(1)
	if guard(func() { p = s.Proj() }) != nil {
		return [][]int{{panicked}}
	}
	for i := range p {
		if p[i] == nil {
			p[i] = []int{}
		}
	}
	if p == nil {
		p = [][]int{}
	}
	return p
}

func eq1(a, b []int) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }
func eq2(a, b [][]int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eq1(a[i], b[i]) {
			return false
		}
	}
	return true
}

func main() {
	flag.Parse()
	if len(flag.Args()) > 0 && flag.Arg(0) == "hrchild" {
		hrChild()
		return
	}
	go watchdog()
	switch *mode {
	case "replay":
		replay()
	case "script":
		script()
	case "random":
		random()
	default:
		fmt.Fprintln(os.Stderr, "bad mode")
		os.Exit(2)
	}
}

func behaviours(f func(b *Beh)) {
	fh, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		t := sc.Text()
		if len(t) < 2 || t[0] != '"' || t[1] != '{' {
			continue
		}
		u, err := strconv.Unquote(t)
		if err != nil {
			fmt.Fprintln(os.Stderr, "unquote:", err)
			os.Exit(2)
		}
		var b Beh
		if err := json.Unmarshal([]byte(u), &b); err != nil {
			fmt.Fprintln(os.Stderr, "json:", err, u)
			os.Exit(2)
		}
		f(&b)
	}
}

type mismatch struct {
	C     []int   `json:"cfg"`
	H     []call  `json:"history"`
	WantR []int   `json:"expected_result"`
	GotR  []int   `json:"actual_result"`
	WantS [][]int `json:"expected_state"`
	GotS  [][]int `json:"actual_state"`
}

func fail(m mismatch) {
	b, _ := json.MarshalIndent(m, "", " ")
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("MISMATCH\n")
	os.Exit(10)
}

func replay() {
	nb, ns := 0, 0
	rng := rand.New(rand.NewSource(*seed))
	ops := map[string]int{}
	behaviours(func(b *Beh) {
		nb++
		s := newSys(*prop, b.C)
		hang := func() { fail(mismatch{C: b.C, H: b.H, WantR: b.R, GotR: []int{hung}, WantS: b.S}) }
		onHang.Store(&hang)
		s.Reset(b.C)
		var r []int
		for _, c := range b.H {
			r = step(s, c.op, c.a)
			ns++
		}
		ops[b.H[len(b.H)-1].op]++
		p := proj(s)
		if !eq1(r, b.R) || !eq2(p, b.S) {
			fail(mismatch{b.C, b.H, b.R, r, b.S, p})
		}
		// once more, looking at the state on the way: reading must not matter
		if len(b.H) < 2 || nb > 20000 && nb%5 != 0 {
			return
		}
		s = newSys(*prop, b.C)
		s.Reset(b.C)
		look := rng.Intn(len(b.H) - 1)
		for i, c := range b.H {
			r = step(s, c.op, c.a)
			ns++
			if i == look || rng.Intn(4) == 0 {
				proj(s)
			}
		}
		p = proj(s)
		if !eq1(r, b.R) || !eq2(p, b.S) {
			fail(mismatch{b.C, b.H, b.R, r, b.S, p})
		}
	})
	j, _ := json.Marshal(map[string]any{"behaviours": nb, "steps": ns, "ops": ops})
	fmt.Println(string(j))
}

type recorder struct {
	w  *bufio.Writer
	f  *os.File
	nt int
	ne int
	ds map[string]int
}

func newRecorder() *recorder {
	f, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return &recorder{w: bufio.NewWriterSize(f, 1<<20), f: f, ds: map[string]int{}}
}
func (r *recorder) add(t *Trace) {
	b, _ := json.Marshal(t)
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.nt++
	r.ne += len(t.Ev)
	for _, e := range t.Ev {
		r.ds[e.Op]++
	}
}
func (r *recorder) done() {
	r.w.Flush()
	r.f.Close()
	j, _ := json.Marshal(map[string]any{"traces": r.nt, "events": r.ne, "ops": r.ds})
	fmt.Println(string(j))
}

func record(s Sys, rec *recorder, t *Trace, op string, a []int, look bool) {
	if a == nil {
		a = []int{}
	}
	hang := func() {
		t.Ev = append(t.Ev, Ev{op, a, []int{hung}, [][]int{}})
		rec.add(t)
		rec.done()
		os.Exit(0)
	}
	onHang.Store(&hang)
	r := step(s, op, a)
	p := [][]int{{notSeen}}
	if look {
		p = proj(s)
	}
	t.Ev = append(t.Ev, Ev{op, a, r, p})
}

func script() {
	rec := newRecorder()
	behaviours(func(b *Beh) {
		cfg := b.C
		s := newSys(*prop, cfg)
		if c, ok := s.(interface{ ScriptCfg([]int) []int }); ok {
			cfg = c.ScriptCfg(cfg)
		}
		s.Reset(cfg)
		t := &Trace{C: cfg}
		for _, c := range b.H {
			record(s, rec, t, c.op, c.a, true)
		}
		rec.add(t)
	})
	rec.done()
}

func random() {
	rec := newRecorder()
	for i := 0; i < *n; i++ {
		rng := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		s := newSys(*prop, nil)
		cfg := s.RandCfg(rng)
		s.Reset(cfg)
		t := &Trace{C: cfg, Ev: []Ev{}}
		every := 1 // in half of the traces the state is looked at only now and then
		if rng.Intn(2) == 0 {
			every = 5
		}
		l := lim(1+rng.Intn(*length), *length)
		for k := 0; k < l; k++ {
			op, a := s.Rand(rng)
			if op == "" {
				break
			}
			record(s, rec, t, op, a, every == 1 || k == l-1 || rng.Intn(every) == 0)
			last := t.Ev[len(t.Ev)-1]
			if len(last.R) == 1 && last.R[0] == panicked || len(last.S) == 1 && len(last.S[0]) == 1 && last.S[0][0] == panicked {
				break
			}
		}
		if d, ok := s.(interface{ Final() []call }); ok {
			for _, c := range d.Final() {
				record(s, rec, t, c.op, c.a, true)
			}
		}
		rec.add(t)
	}
	rec.done()
}

func newSys(p string, cfg []int) Sys {
	switch p {
	case "C10", "C11", "C12":
		return &dlSys{p: p}
	case "C13":
		return &lhSys{}
	case "C14":
		return &ringSys{}
	case "C15":
		return &heapSys{}
	case "C16":
		return &pqSys{}
	case "C17", "C18", "C19":
		return &vecSys{p: p}
	case "C20":
		return &setSys{}
	case "C21":
		return &gmSys{}
	case "C22", "C23":
		return &hrSys{p: p}
	case "C24", "C25":
		return &treeSys{p: p}
	}
	panic("unknown property " + p)
}

// lim: small in ordinary random traces, large in the traces with large containers, huge (default: large) in those with
// very large ones
func lim(small, large int, huge ...int) int {
	switch {
	case *big == 2 && len(huge) > 0:
		return huge[0]
	case *big > 0:
		return large
	}
	return small
}

// hot: an index below n (n > 0), in large containers often one at or near the ends or the middle
func hot(r *rand.Rand, n int) int {
	if *big > 0 && r.Intn(2) == 0 {
		return min(max(pick(r, 0, 0, 1, 2, 3, n-1, n-1, n-2, n-3, n/2), 0), n-1)
	}
	return r.Intn(n)
}
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
func pick(r *rand.Rand, xs ...int) int { return xs[r.Intn(len(xs))] }
func pickS(r *rand.Rand, xs ...string) string {
	return xs[r.Intn(len(xs))]
}
