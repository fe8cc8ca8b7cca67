package model

// TreeSpec describes a tree enumeration.
type TreeSpec struct {
	Leaves []*V
	Names  []string // member names; members of one object are taken in order
	memo   map[int][]*V
}

// Of lists all trees with exactly n nodes (containers and leaves). Empty
// containers count as leaves with one node.
func (s *TreeSpec) Of(n int) []*V {
	if s.memo == nil {
		s.memo = map[int][]*V{}
	}
	if r, ok := s.memo[n]; ok {
		return r
	}
	var out []*V
	if n == 1 {
		for _, l := range s.Leaves {
			out = append(out, l)
		}
		out = append(out, A(), O(nil))
	} else {
		for _, kids := range s.forests(n - 1) {
			out = append(out, A(kids...))
			for _, names := range combos(s.Names, len(kids)) {
				o := O(nil)
				for i, k := range kids {
					o.O[names[i]] = k
				}
				out = append(out, o)
			}
		}
	}
	s.memo[n] = out
	return out
}

// forests lists all non-empty sequences of trees with n nodes in total.
func (s *TreeSpec) forests(n int) [][]*V {
	var out [][]*V
	for first := 1; first <= n; first++ {
		for _, t := range s.Of(first) {
			if first == n {
				out = append(out, []*V{t})
				continue
			}
			for _, rest := range s.forests(n - first) {
				out = append(out, append([]*V{t}, rest...))
			}
		}
	}
	return out
}

// Objects lists the object trees with exactly n nodes.
func (s *TreeSpec) Objects(n int) []*V {
	var out []*V
	for _, t := range s.Of(n) {
		if t.K == Object {
			out = append(out, t)
		}
	}
	return out
}

// combos lists the k-subsets of names in order.
func combos(names []string, k int) [][]string {
	if k == 0 {
		return [][]string{nil}
	}
	if k > len(names) {
		return nil
	}
	var out [][]string
	for i := range names {
		for _, rest := range combos(names[i+1:], k-1) {
			out = append(out, append([]string{names[i]}, rest...))
		}
	}
	return out
}

// Size counts nodes.
func (v *V) Size() int {
	n := 1
	for _, e := range v.A {
		n += e.Size()
	}
	for _, e := range v.O {
		n += e.Size()
	}
	return n
}

// Any reports whether pred holds for any node.
func (v *V) Any(pred func(*V) bool) bool {
	if pred(v) {
		return true
	}
	for _, e := range v.A {
		if e.Any(pred) {
			return true
		}
	}
	for _, e := range v.O {
		if e.Any(pred) {
			return true
		}
	}
	return false
}
