package ph

// forests lists all ordered forests with n nodes (flags unset, positions unset).
func forests(n int) [][]*Node {
	if n == 0 {
		return [][]*Node{nil}
	}
	var out [][]*Node
	for k := 1; k <= n; k++ { // size of the first tree
		for _, kids := range forests(k - 1) {
			for _, rest := range forests(n - k) {
				out = append(out, append([]*Node{{OnFailure: kids}}, rest...))
			}
		}
	}
	return out
}

func copyNodes(ns []*Node, pos *int, flags []int) []*Node {
	var out []*Node
	for _, n := range ns {
		c := &Node{Pos: *pos}
		f := 0
		if flags != nil {
			f = flags[*pos]
		}
		c.IgnoreMissing = f&1 != 0
		c.IgnoreFailure = f&2 != 0
		*pos++
		c.OnFailure = copyNodes(n.OnFailure, pos, flags)
		out = append(out, c)
	}
	return out
}

// Shapes calls f for every pipeline shape with n processors in total, with
// every combination of flags from the given set. A shape with no processors but
// with on_failure handlers is left out for n > 1 (nothing ever runs).
func Shapes(n int, flagset []int, f func(s *Shape) bool) bool {
	for i := 0; i <= n; i++ {
		if i == 0 && n > 1 {
			continue
		}
		for _, a := range forests(i) {
			for _, b := range forests(n - i) {
				idx := make([]int, n)
				for {
					flags := make([]int, n)
					for j := range idx {
						flags[j] = flagset[idx[j]]
					}
					s := &Shape{N: n}
					pos := 0
					s.Procs = copyNodes(a, &pos, flags)
					s.OnFailure = copyNodes(b, &pos, flags)
					if !f(s) {
						return false
					}
					j := n - 1
					for j >= 0 {
						idx[j]++
						if idx[j] < len(flagset) {
							break
						}
						idx[j] = 0
						j--
					}
					if j < 0 {
						break
					}
				}
			}
		}
	}
	return true
}

// Chain is a pipeline of n processors with g global handlers.
func Chain(n, g int, flags func(i int) int) *Shape {
	s := &Shape{N: n + g}
	for i := 0; i < n+g; i++ {
		nd := &Node{Pos: i, IgnoreMissing: flags(i)&1 != 0, IgnoreFailure: flags(i)&2 != 0}
		if i < n {
			s.Procs = append(s.Procs, nd)
		} else {
			s.OnFailure = append(s.OnFailure, nd)
		}
	}
	return s
}

// Deep is a pipeline whose first processor nests d levels of on_failure lists,
// each holding two handlers; a last top-level processor follows.
func Deep(d int, flags func(level int) int) *Shape {
	s := &Shape{}
	pos := 0
	var rec func(level int) *Node
	rec = func(level int) *Node {
		n := &Node{Pos: pos, IgnoreMissing: flags(level)&1 != 0, IgnoreFailure: flags(level)&2 != 0}
		pos++
		if level < d {
			n.OnFailure = append(n.OnFailure, rec(level+1))
			n.OnFailure = append(n.OnFailure, &Node{Pos: pos})
			pos++
		}
		return n
	}
	s.Procs = append(s.Procs, rec(0))
	s.Procs = append(s.Procs, &Node{Pos: pos})
	pos++
	s.OnFailure = append(s.OnFailure, &Node{Pos: pos})
	pos++
	s.N = pos
	return s
}
