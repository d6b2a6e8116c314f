package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand"
	"os"
	"os/exec"

	"github.com/zijiren233/gencontainer/hashring"
)

// Members and probe keys per element type.  With strings, some names are forged so that (with the CRC-32 the
// ring uses) their points coincide with other members' points or the key's position with a member's point; with
// any other hash function these are ordinary names.

const hrMembers, hrBig, hrHuge = 8, 40, 200

// forge returns prefix plus four bytes such that crc32(result+suffix) == target.
func forge(prefix, suffix string, target uint32) string {
	tab := crc32.IEEETable
	rev := func(c uint32, b byte) uint32 { // state before byte b given the state after
		for i := 0; i < 256; i++ {
			if tab[i]>>24 == c>>24 {
				return (c^tab[i])<<8 | uint32(byte(i)^b)
			}
		}
		panic("crc")
	}
	c := ^target
	for i := len(suffix) - 1; i >= 0; i-- {
		c = rev(c, suffix[i])
	}
	// four bytes that take the state of prefix to c
	want := c
	for i := 0; i < 4; i++ {
		want = rev(want, 0)
	}
	have := ^crc32.ChecksumIEEE([]byte(prefix))
	x := have ^ want
	return prefix + string([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)})
}
func pt(name string, i int) uint32 { return crc32.ChecksumIEEE([]byte(fmt.Sprintf("%v-%d", name, i))) }

var hrNames = func() []string {
	n := []string{"a", "b", "n1", ""}            // the zero value is a name like any other
	n = append(n, forge("x", "-0", pt("a", 0)))  // first point coincides with a's first
	n = append(n, forge("y", "-2", pt("a", 1)))  // third point coincides with a's second
	n = append(n, forge("zz", "-0", pt("b", 1))) // first point coincides with b's second
	n = append(n, "node-with-a-long-name-7")
	for i := len(n); i < hrHuge; i++ {
		n = append(n, fmt.Sprintf("10.0.%d.%d:80", i%3, i))
	}
	return n
}()
var hrKeys = func() (k []string) {
	k = append(k, hrNames[:hrMembers]...)
	for i, m := range []string{"a", "b", "n1", "n10"} {
		k = append(k, forge(fmt.Sprint("k", i), "-0", pt(m, 0)), forge(fmt.Sprint("q", i), "-0", pt(m, 2)),
			forge(fmt.Sprint("r", i), "-0", pt(m, 1)-1), forge(fmt.Sprint("s", i), "-0", pt(m, 1)+1))
	}
	k = append(k, forge("lo", "-0", 0), forge("hi", "-0", 1<<32-1))
	for i := 0; i < 24; i++ {
		k = append(k, fmt.Sprintf("key%d", i))
	}
	return
}()

type hrAny interface {
	add(m []int)
	remove(m []int)
	reset(m []int)
	get(k int, empty bool) int
	keys() int
	spread(n int, empty bool) int
}
type hrT[T ord] struct {
	h    *hashring.HashRing[T]
	mems []T
	ks   []T
	mk   func(int) T
}

func (h *hrT[T]) ns(m []int) (r []T) {
	for _, x := range m {
		r = append(r, h.mems[x-1])
	}
	return
}
func (h *hrT[T]) add(m []int)    { itself(h.h, h.h.AddNodes(h.ns(m)...)) }
func (h *hrT[T]) remove(m []int) { h.h.RemoveNodes(h.ns(m)...) }
func (h *hrT[T]) reset(m []int)  { h.h.ResetNodes(h.ns(m)...) }
func (h *hrT[T]) keys() int      { return len(h.ks) }
func (h *hrT[T]) code(x T, empty bool) int {
	var zero T
	if empty && x == zero { // of the empty ring: nobody
		return 0
	}
	for i, y := range h.mems {
		if x == y {
			return i + 1
		}
	}
	return -1
}
func (h *hrT[T]) get(k int, empty bool) int { return h.code(h.h.GetNode(h.ks[k]), empty) }
func (h *hrT[T]) spread(n int, empty bool) int {
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		if c := h.code(h.h.GetNode(h.mk(i)), empty); c > 0 {
			seen[c] = true
		}
	}
	return len(seen)
}

func newRing(typ, replicas int) hrAny {
	switch typ {
	case 0:
		return &hrT[string]{hashring.New[string](replicas), hrNames, hrKeys, func(i int) string { return fmt.Sprint("obj/", i) }}
	case 1:
		m, k := []int{1, 0, 3, 10, 11, 100, 7, -5}, []int{}
		k = append(k, m...)
		for i := len(m); i < hrHuge; i++ {
			m = append(m, -100-3*i)
		}
		for i := 0; i < 32; i++ {
			k = append(k, 1000+7*i)
		}
		return &hrT[int]{hashring.New[int](replicas), m, k, func(i int) int { return 5000 + i }}
	}
	m, k := []float64{1, 0, 2, 2.25, 3, 10, 1e10, -4}, []float64{}
	k = append(k, m...)
	for i := len(m); i < hrHuge; i++ {
		m = append(m, -100.25*float64(i))
	}
	for i := 0; i < 32; i++ {
		k = append(k, 0.5*float64(i)+20)
	}
	return &hrT[float64]{hashring.New[float64](replicas), m, k, func(i int) float64 { return 5000.5 + float64(i) }}
}

type hrSys struct {
	p     string
	cfg   []int
	rings []hrAny
	mem   []map[int]bool // bookkeeping for random choice
}

func (s *hrSys) ScriptCfg(cfg []int) []int {
	c := append([]int{}, cfg...)
	c[4] = newRing(c[1], 1).keys()
	return c
}
func (s *hrSys) Reset(cfg []int) {
	obsDown = false
	s.cfg, s.rings, s.mem = cfg, nil, nil
	for i := 0; i < cfg[3]; i++ {
		s.rings = append(s.rings, newRing(cfg[1], cfg[2]))
		s.mem = append(s.mem, map[int]bool{})
	}
}

var obsDown bool

// obs asks for every key, alternately upwards and downwards: a key asked last is asked first the next time.
func obs(h hrAny, empty bool) []int {
	n := h.keys()
	r := make([]int, n)
	for i := range r {
		k := i
		if obsDown {
			k = n - 1 - i
		}
		r[k] = h.get(k, empty)
	}
	obsDown = !obsDown
	return r
}
func (s *hrSys) Exec(op string, a []int) []int {
	h := s.rings[a[0]-1]
	m := s.mem[a[0]-1]
	switch op {
	case "Add":
		h.add(a[1:])
		for _, x := range a[1:] {
			m[x] = true
		}
	case "Remove":
		h.remove(a[1:])
		for _, x := range a[1:] {
			delete(m, x)
		}
	case "Reset":
		h.reset(a[1:])
		clear(m)
		for _, x := range a[1:] {
			m[x] = true
		}
	case "New":
		s.rings[a[0]-1] = newRing(s.cfg[1], s.cfg[2])
		clear(m)
		h = s.rings[a[0]-1]
	case "Get":
	case "Other":
		cmd := exec.Command(os.Args[0], "hrchild")
		in, _ := json.Marshal(append([]int{s.cfg[1], s.cfg[2]}, a[1:]...))
		cmd.Stdin = bytes.NewReader(in)
		o, err := cmd.Output()
		if err != nil {
			fmt.Fprintln(os.Stderr, "child:", err)
			os.Exit(2)
		}
		var r []int
		if err := json.Unmarshal(o, &r); err != nil {
			fmt.Fprintln(os.Stderr, "child:", err)
			os.Exit(2)
		}
		return r
	case "Spread":
		return []int{h.spread(4000, len(m) == 0)}
	default:
		panic(op)
	}
	return obs(h, len(m) == 0)
}
func hrChild() {
	b, _ := io.ReadAll(os.Stdin)
	var a []int
	if err := json.Unmarshal(b, &a); err != nil {
		os.Exit(2)
	}
	var r []int
	if guard(func() {
		h := newRing(a[0], a[1])
		h.add(a[2:])
		r = obs(h, len(a) == 2)
	}) != nil {
		r = []int{panicked}
	}
	o, _ := json.Marshal(r)
	os.Stdout.Write(o)
}
func (s *hrSys) Proj() [][]int { return nil }
func (s *hrSys) RandCfg(r *rand.Rand) []int {
	typ := pick(r, 0, 0, 0, 1, 2)
	mode, rings, rep := 22, 1+r.Intn(2), pick(r, 1, 2, 3, 5, 20, lim(1, 150, 1000), lim(2, 60, 5000), lim(1, 150, 15000), lim(3, 10, 30000))
	if s.p == "C23" {
		mode, rings = 23, 1
		rep = pick(r, 1, 2, 3, 5, 20, 60, lim(60, 150, 1000), lim(3, 60, 5000), lim(1, 150, 15000), lim(3, 10, 30000))
	}
	return []int{mode, typ, rep, rings, newRing(typ, 1).keys()}
}
func (s *hrSys) Rand(r *rand.Rand) (string, []int) {
	H := 1 + r.Intn(len(s.rings))
	m := s.mem[H-1]
	some := func(n int) (a []int) {
		a = []int{H}
		if s.cfg[2] > 1000 {
			n = min(n, pick(r, 1, 1, 2, 5))
		}
		for i := 0; i < n; i++ {
			a = append(a, 1+r.Intn(lim(hrMembers, hrBig, hrHuge)))
		}
		return
	}
	if len(m)*s.cfg[2] > 250000 {
		return "Remove", append([]int{H}, sortedKeys(m)[:len(m)/2]...)
	}
	switch x := r.Intn(20); {
	case x < 8:
		return "Add", some(lim(pick(r, 1, 1, 2, 3, 0), r.Intn(12), r.Intn(60)))
	case x < 13:
		return "Remove", some(lim(pick(r, 1, 1, 2, 0), r.Intn(6), r.Intn(20)))
	case x < 15:
		return "Reset", some(lim(pick(r, 0, 2, 4, 6), r.Intn(40), r.Intn(200)))
	case x == 15: // the same set again, in another order
		a := []int{H}
		for i := range m {
			a = append(a, i)
		}
		r.Shuffle(len(a)-1, func(i, j int) { a[i+1], a[j+1] = a[j+1], a[i+1] })
		return "Reset", sortedTail(a, r.Intn(2) == 0)
	case x == 16:
		return "New", []int{H}
	case x == 17 && s.cfg[0] == 22 && r.Intn(6) == 0:
		a := []int{H}
		for i := 1; i <= hrHuge; i++ {
			if m[i] {
				a = append(a, i)
			}
		}
		return "Other", a
	case x == 18 && s.cfg[0] == 23 && s.cfg[2] >= 20 && ordinary(s.cfg[1], m) && r.Intn(4) == 0:
		return "Spread", []int{H}
	}
	return "Get", []int{H}
}

// ordinary: no member whose points were forged to coincide with another's
func ordinary(typ int, m map[int]bool) bool { return typ != 0 || !m[5] && !m[6] && !m[7] }
func sortedKeys(m map[int]bool) (a []int) {
	for k := range m {
		a = append(a, k)
	}
	return sorted(a)
}
func sortedTail(a []int, down bool) []int {
	b := sorted(a[1:])
	if down {
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
	return append([]int{a[0]}, b...)
}
