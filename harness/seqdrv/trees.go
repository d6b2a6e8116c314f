package main

import (
	"math/rand"
	"strconv"
	"strings"

	"github.com/zijiren233/gencontainer/tree"
)

type tn = tree.Node[int]
type treeSys struct {
	p   string
	cfg []int
	ns  []*tn
	ids map[*tn]int
}

func (s *treeSys) Reset(cfg []int) { s.cfg, s.ns, s.ids = cfg, nil, map[*tn]int{} }
func (s *treeSys) id(n *tn) int {
	if n == nil {
		return 0
	}
	if i, ok := s.ids[n]; ok {
		return i
	}
	return -2
}
func (s *treeSys) mk() *tn {
	n := tree.NewNode(5 * (len(s.ns) + 1) % 3)
	s.ns = append(s.ns, n)
	s.ids[n] = len(s.ns)
	return n
}
func (s *treeSys) Exec(op string, a []int) []int {
	N := func(i int) *tn {
		if a[i] == 0 {
			return nil
		}
		return s.ns[a[i]-1]
	}
	switch op {
	case "New":
		return []int{s.id(s.mk())}
	case "NewN":
		for i := 0; i < a[0]; i++ {
			s.mk()
		}
		return []int{len(s.ns)}
	case "Chain":
		p := N(0)
		for i := 1; i <= a[1]; i++ {
			n := s.mk()
			n.Parent = p
			if a[2] == 0 || a[2] == 2 && i%2 == 1 {
				p.Left = n
			} else {
				p.Right = n
			}
			p = n
		}
		return []int{len(s.ns)}
	case "Facts":
		return s.facts(N(0))
	case "Rel":
		return s.rel(N(0), N(1))
	case "Dfs":
		return s.list(N(0).TraversalDFS())
	case "Bfs":
		return s.list(N(0).TraversalBFS())
	case "Draw":
		return s.draw(N(0))
	case "AddL":
		p, n := N(0), s.mk()
		p.Left, n.Parent = n, p
		return []int{s.id(n)}
	case "AddR":
		p, n := N(0), s.mk()
		p.Right, n.Parent = n, p
		return []int{s.id(n)}
	case "SetL":
		return []int{s.id(N(0).SetLeft(N(1)))}
	case "SetR":
		return []int{s.id(N(0).SetRight(N(1)))}
	case "Build":
		return buildKind(a[0], a[1])
	}
	panic(op)
}

// draw: the values in the picture, layout aside.
func (s *treeSys) draw(n *tn) (r []int) {
	for _, w := range strings.Fields(n.DrawTree()) {
		v, err := strconv.Atoi(w)
		if err != nil {
			v = -2
		}
		r = append(r, v)
	}
	return
}

func buildKind(n, k int) []int {
	ptr := func(i int) *int {
		if i%3 == 0 {
			return nil
		}
		return &i
	}
	switch k {
	case 0:
		return build(n, func(i int) int { return i }, func(v int) int { return v })
	case 1:
		return build(n, func(i int) int { return 7 * i % 4 }, func(v int) int { return v })
	case 2:
		return build(n, func(i int) string { return "" }, func(v string) int { return len(v) })
	case 3:
		return build(n, ptr, func(v *int) int {
			if v == nil {
				return 0
			}
			return *v
		})
	case 4:
		return build(n, func(i int) any {
			if i%3 == 0 {
				return nil
			}
			return []int{i}
		}, func(v any) int {
			if v == nil {
				return 0
			}
			return v.([]int)[0]
		})
	}
	panic("kind")
}

// build: BuildTree, then in breadth-first order each node's value and its children's places.
func build[T any](n int, val func(int) T, num func(T) int) (r []int) {
	vals := []T{}
	for i := 1; i <= n; i++ {
		vals = append(vals, val(i))
	}
	root := tree.BuildTree(vals)
	if n > 0 { // the tree is its own
		vals[0], vals[n-1] = val(1), val(1)
	}
	if root == nil {
		return nil
	}
	bfs := root.TraversalBFS()
	at := map[*tree.Node[T]]int{nil: 0}
	for i, x := range bfs {
		at[x] = i + 1
	}
	place := func(x *tree.Node[T]) int {
		if i, ok := at[x]; ok {
			return i
		}
		return -2
	}
	for _, x := range bfs {
		r = append(r, num(x.Val), place(x.Left), place(x.Right))
		if x.Left != nil && x.Left.Parent != x || x.Right != nil && x.Right.Parent != x || x == root && x.Parent != nil {
			r = append(r, -3)
		}
	}
	return
}

func (s *treeSys) list(ns []*tn) (r []int) {
	for _, n := range ns {
		r = append(r, s.id(n))
	}
	return
}
func (s *treeSys) facts(n *tn) []int {
	return []int{b2i(n.IsRoot()), b2i(n.IsLeaf()), b2i(n.IsLeft()), b2i(n.IsRight()),
		s.id(n.Sibling()), s.id(n.Uncle()), s.id(n.Grandparent()), b2i(n.HasLeft()), b2i(n.HasRight()), b2i(n.HasChild()), b2i(n.HasBothChild()),
		b2i(n.HasParent()), b2i(n.HasSibling()), b2i(n.HasUncle()), b2i(n.HasGrandparent()), n.Layer(), n.MaxDepth(),
		b2i(n.IsLeftRelation(nil)), b2i(n.IsRightRelation(nil)), b2i(n.IsChildRelation(nil)), b2i(n.IsAncestorRelation(nil)), b2i(n.IsDescendantRelation(nil))}
}
func (s *treeSys) rel(n, m *tn) []int {
	return []int{b2i(n.IsLeftRelation(m)), b2i(n.IsRightRelation(m)), b2i(n.IsChildRelation(m)), b2i(n.IsUncleRelation(m)),
		b2i(n.IsSiblingRelation(m)), b2i(n.IsGrandparentRelation(m)), b2i(n.IsAncestorRelation(m)), b2i(n.IsDescendantRelation(m))}
}
func (s *treeSys) Proj() [][]int {
	if s.cfg[0] == 2 {
		return nil
	}
	var l, r, p []int
	for _, n := range s.ns {
		l, r, p = append(l, s.id(n.Left)), append(r, s.id(n.Right)), append(p, s.id(n.Parent))
	}
	out := [][]int{l, r, p}
	if s.cfg[0] == 0 {
		return out
	}
	for _, n := range s.ns {
		out = append(out, s.facts(n))
		out = append(out, s.list(n.TraversalDFS()), s.list(n.TraversalBFS()), s.draw(n))
		var rel []int
		for _, m := range s.ns {
			if m != n {
				rel = append(rel, s.rel(n, m)...)
			}
		}
		out = append(out, rel)
	}
	return out
}
func (s *treeSys) RandCfg(r *rand.Rand) []int {
	if s.p == "C24" {
		return []int{0}
	}
	return []int{lim(1, 1, 2)}
}
func (s *treeSys) anc(n, of *tn) bool { // n is of or above it; bounded
	for i := 0; of != nil && i < 10000; i++ {
		if n == of {
			return true
		}
		of = of.Parent
	}
	return false
}
func (s *treeSys) Rand(r *rand.Rand) (string, []int) {
	n := len(s.ns)
	if n == 0 {
		return "New", nil
	}
	if s.p == "C25" && *big == 2 {
		for {
			i, j := r.Intn(n), r.Intn(n)
			if r.Intn(2) == 0 {
				i = r.Intn(min(n, 3))
			}
			if r.Intn(2) == 0 {
				j = n - 1 - r.Intn(min(n, 3))
			}
			free := (s.ns[i].Left == nil) || (s.ns[i].Right == nil)
			switch r.Intn(11) {
			case 0, 1, 2:
				if k := 1 + r.Intn(pick(r, 5, 250)); n+k < 900 && free {
					if s.ns[i].Left != nil {
						return "Chain", []int{i + 1, k, 1}
					} else if s.ns[i].Right != nil {
						return "Chain", []int{i + 1, k, pick(r, 0, 2)}
					}
					return "Chain", []int{i + 1, k, r.Intn(3)}
				}
			case 9, 10:
				if !s.anc(s.ns[j], s.ns[i]) {
					return pickS(r, "SetL", "SetR"), []int{i + 1, pick(r, j+1, j+1, 0)}
				}
			case 3:
				return "Facts", []int{i + 1}
			case 4:
				return "Facts", []int{j + 1}
			case 5:
				if i != j {
					return "Rel", []int{i + 1, j + 1}
				}
			case 6:
				return "Dfs", []int{i + 1}
			case 7:
				return pickS(r, "Bfs", "Draw"), []int{i + 1}
			case 8:
				if r.Intn(4) == 0 {
					return "Build", []int{r.Intn(4000), r.Intn(5)}
				}
			}
		}
	}
	if s.p == "C25" {
		if n >= lim(12, 22) {
			if r.Intn(4) == 0 {
				return "Build", []int{r.Intn(lim(40, 400)), r.Intn(5)}
			}
			return "", nil
		}
		if r.Intn(6) == 0 {
			return "New", nil
		}
		if r.Intn(3) == 0 {
			for i := 0; i < 5; i++ {
				p, c := 1+r.Intn(n), r.Intn(n+1)
				if c == 0 || !s.anc(s.ns[c-1], s.ns[p-1]) {
					return pickS(r, "SetL", "SetR"), []int{p, c}
				}
			}
		}
		for {
			// chains are more likely than chance would have them
			i := r.Intn(n)
			if r.Intn(2) == 0 {
				i = n - 1
			}
			if p := s.ns[i]; r.Intn(2) == 0 && p.Left == nil {
				return "AddL", []int{i + 1}
			} else if p.Right == nil {
				return "AddR", []int{i + 1}
			}
		}
	}
	if n < lim(4, 10) || n < lim(9, 60) && r.Intn(4) == 0 {
		return "New", nil
	}
	if *big == 2 && n < 200 {
		return "NewN", []int{30 + r.Intn(200)}
	}
	for {
		p, c := 1+r.Intn(n), r.Intn(n+1)
		if c != 0 && s.anc(s.ns[c-1], s.ns[p-1]) {
			continue
		}
		return pickS(r, "SetL", "SetR"), []int{p, c}
	}
}
