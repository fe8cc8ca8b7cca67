// C01: an event is a faithful nested key/value store.
package main

import (
	"fmt"
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/event"

	"verif/mc"
	"verif/model"
	. "verif/store"
)

var (
	keys = []string{"a", "b", "a.b", "a.c", "a.b.c", "b.a", `a\.b`, ".a", "a..b", "", "."}
	vals = []*model.V{
		model.I(1), model.S("x"), model.N(), model.O(nil), model.KV("b", model.I(2)),
		model.KV("b", model.KV("c", model.I(3)), "c", model.N()), model.A(), model.A(model.KV("b", model.I(4)), model.N()), model.NilV(),
	}
)

func main() {
	full := All(keys, vals)
	probes := Probes(append([]string{"c", "a.b.c.d", `a\.b.c`, "b.a.c", "a.", `\.a`}, keys...))
	mid := All([]string{"a", "a.b", "a.b.c", "b", `a\.b`, ""}, []*model.V{model.I(1), model.N(), model.KV("b", model.O(nil)), model.S("y")})
	for _, f := range []string{"a", "a.b", "b"} {
		for _, to := range []string{"a", "b", "a.b", "a.c", "b.c"} {
			// Moving a field into itself would build a cyclic value.
			if f != to && !strings.HasPrefix(to, f+".") {
				mid = append(mid, NewMove(f, to))
			}
		}
	}
	small := append(All([]string{"a", "a.b", "b", "a.b.c"}, []*model.V{model.I(1), model.KV("b", model.I(2))}), NewMove("a", "b"), NewMove("a.b", "b"), NewMove("b", "a.c"))
	inits := Inits()

	check := func(t *mc.T, in Init, ops ...Op) {
		t.At(Ops(in.Name, ops...))
		e := in.Make()
		m := &model.Tree{Root: in.Root.Clone()}
		for _, o := range ops {
			Step(t, e, m, o)
		}
		Compare(t, e, m, probes)
		t.Trace(1)
		t.State(m.Root.Canon())
	}

	mc.Main(&mc.Check{
		ID: "C01", Level: "model_checking",
		Rule: "every operation history up to the stated depth over colliding keys and all value kinds is run on a fresh event and on a nested map; all return values, the whole event and every probe key are compared",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"full_alphabet": len(full), "mid_alphabet": len(mid), "small_alphabet": len(small), "initial_states": len(inits), "full_depth": 3, "mid_depth": map[string]int{"quick": 3, "thorough": 4}[tier], "small_depth": depth(tier, 4, 6), "nesting_sweep": depthMax(tier), "width_sweep": widthMax(tier)}
		},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			// Initial states, depth 2.
			for _, in := range inits {
				in := in
				for _, o1 := range full {
					o1 := o1
					if !yield("init "+in.Name+" "+o1.String(), func(t *mc.T) {
						check(t, in)
						check(t, in, o1)
						for _, o2 := range full {
							check(t, in, o1, o2)
						}
					}) {
						return
					}
				}
			}
			if !sweeps(tier, yield, check, inits[0]) {
				return
			}
			if !twoEvents(yield, probes, mid) {
				return
			}
			// Histories from the empty event.
			empty := inits[0]
			if !hist(yield, "mid", empty, mid, depth(tier, 3, 4), check) {
				return
			}
			if !hist(yield, "full", empty, full, 3, check) {
				return
			}
			if !hist(yield, "small", empty, small, depth(tier, 4, 6), check) {
				return
			}
			// One long history: every pair of operations in a row, no reset.
			for r, al := range [][]Op{small, mid, full} {
				al := al
				if !yield(fmt.Sprintf("long walk %d", r), func(t *mc.T) {
					e, m := event.New(), model.NewTree()
					var cur [2]Op
					t.At(func() string { return fmt.Sprintf("long walk over all pairs, at %v; %v", cur[0], cur[1]) })
					for _, o1 := range al {
						for _, o2 := range al {
							cur = [2]Op{o1, o2}
							Step(t, e, m, o1)
							Step(t, e, m, o2)
							if !model.MatchEvent(m.Root, e) {
								t.Fail("event is %s, want %s", model.Snapshot(e).Canon(), m.Root.Canon())
							}
						}
					}
					Compare(t, e, m, probes)
					t.Trace(1)
				}) {
					return
				}
			}
			bfs(tier, yield, mid, probes)
		},
	})
}

func depth(tier string, q, th int) int {
	if tier == "thorough" {
		return th
	}
	return q
}

func depthMax(tier string) int { return depth(tier, 80, 300) }
func widthMax(tier string) int { return depth(tier, 300, 2100) }

func hist(yield func(string, func(*mc.T)) bool, name string, in Init, al []Op, d int, check func(*mc.T, Init, ...Op)) bool {
	for _, o1 := range al {
		for _, o2 := range al {
			o1, o2 := o1, o2
			if !yield(name+" "+o1.String()+"; "+o2.String(), func(t *mc.T) {
				var rec func(ops []Op)
				rec = func(ops []Op) {
					check(t, in, ops...)
					if len(ops) == d {
						return
					}
					for _, o := range al {
						rec(append(ops[:len(ops):len(ops)], o))
					}
				}
				rec([]Op{o1, o2})
				t.Sample(Ops(in.Name, o1, o2))
			}) {
				return false
			}
		}
	}
	return true
}

// bfs explores all reachable states over an alphabet, deduplicated by content,
// up to a size bound; each transition replays the shortest history reaching the
// state on a fresh event.
func bfs(tier string, yield func(string, func(*mc.T)) bool, al []Op, probes []Probe) {
	for _, keyset := range [][]string{{"a", "a.b", "b"}, {"a", "a.a", "a.a.a"}, {"a", `a\.b`, "a.b", "b.a"}} {
		keyset := keyset
		if !yield("bfs "+strings.Join(keyset, " "), func(t *mc.T) {
			ops := All(keyset, []*model.V{model.I(1), model.O(nil), model.N()})
			type node struct{ hist []Op }
			seen := map[string]bool{model.O(nil).Canon(): true}
			queue := []node{{nil}}
			limit := depth(tier, 3000, 40000)
			for len(queue) > 0 && len(seen) < limit {
				n := queue[0]
				queue = queue[1:]
				for _, o := range ops {
					e, m := event.New(), model.NewTree()
					h := append(n.hist[:len(n.hist):len(n.hist)], o)
					t.At(Ops("New()", h...))
					for _, x := range h {
						Step(t, e, m, x)
					}
					Compare(t, e, m, probes)
					t.Trace(1)
					c := m.Root.Canon()
					t.State(c)
					if !seen[c] {
						seen[c] = true
						queue = append(queue, node{h})
					}
				}
			}
			t.Count("bfs_states", int64(len(seen)))
			if len(queue) == 0 {
				t.Count("bfs_closed", 1)
			}
		}) {
			return
		}
	}
}

// twoEvents interleaves histories on two events: they never influence each other.
func twoEvents(yield func(string, func(*mc.T)) bool, probes []Probe, al []Op) bool {
	for _, o1 := range al {
		o1 := o1
		if !yield("two events "+o1.String(), func(t *mc.T) {
			for _, o2 := range al {
				for _, o3 := range al {
					e1, m1, e2, m2 := event.New(), model.NewTree(), event.New(), model.NewTree()
					t.At(func() string { return fmt.Sprintf("e1: %v; e2: %v; e1: %v", o1, o2, o3) })
					Step(t, e1, m1, o1)
					Step(t, e2, m2, o2)
					Step(t, e1, m1, o3)
					Compare(t, e1, m1, nil)
					Compare(t, e2, m2, probes)
					t.Trace(1)
				}
			}
		}) {
			return false
		}
	}
	return true
}

func sweeps(tier string, yield func(string, func(*mc.T)) bool, check func(*mc.T, Init, ...Op), in Init) bool {
	I := model.I
	// Nesting: a chain of every depth, with every prefix and a sibling at every level.
	chain := func(d int, name string) string {
		return strings.TrimSuffix(strings.Repeat(name+".", d), ".")
	}
	for _, d := range model.Sizes(depthMax(tier), 5000) {
		d := d
		if !yield(fmt.Sprintf("nesting %d", d), func(t *mc.T) {
			for _, name := range []string{"a", `x\.y`} {
				full := chain(d, name)
				var ks []string
				step := 1
				if d > 40 {
					step = d / 20
				}
				for k := 1; k <= d+1; k += step {
					ks = append(ks, chain(k, name), chain(k, name)+".z")
				}
				ks = append(ks, full, full+".z")
				pr := Probes(ks)
				run := func(ops ...Op) {
					t.At(Ops(fmt.Sprintf("nesting %d", d), ops...))
					e, m := in.Make(), &model.Tree{Root: in.Root.Clone()}
					for _, o := range ops {
						Step(t, e, m, o)
					}
					Compare(t, e, m, pr)
					t.Trace(1)
				}
				put := New(Put, full, I(1))
				run(put)
				for _, k := range ks {
					for _, o := range []Op{New(Put, k, I(2)), New(TryPut, k, I(2)), New(Put, k, model.O(nil)), New(Delete, k, nil)} {
						run(put, o)
						run(put, New(Put, chain(1, name)+".z", I(3)), o, put)
					}
				}
			}
		}) {
			return false
		}
	}
	// Width.
	for _, w := range widths(widthMax(tier)) {
		w := w
		if !yield(fmt.Sprintf("width %d", w), func(t *mc.T) {
			for _, prefix := range []string{"", "o.", "o.p."} {
				e, m := in.Make(), &model.Tree{Root: in.Root.Clone()}
				var cur Op
				t.At(func() string { return fmt.Sprintf("width %d prefix %q, at %v", w, prefix, cur) })
				var pr []Probe
				for i := 0; i < w; i++ {
					cur = New(Put, fmt.Sprintf("%sk%d", prefix, i), I(int64(i)))
					Step(t, e, m, cur)
					pr = append(pr, Probe{Key: cur.Key, Path: model.Path(cur.Key)})
				}
				Compare(t, e, m, pr)
				for i := 0; i < w; i += 3 {
					cur = New(Delete, fmt.Sprintf("%sk%d", prefix, i), nil)
					Step(t, e, m, cur)
				}
				Compare(t, e, m, pr)
				for i := 0; i < w; i += 2 {
					cur = New(TryPut, fmt.Sprintf("%sk%d", prefix, i), I(int64(-i)))
					Step(t, e, m, cur)
				}
				Compare(t, e, m, pr)
				t.Trace(1)
			}
		}) {
			return false
		}
	}
	// Key lengths.
	var lens []int
	for n := 1; n <= 300; n++ {
		lens = append(lens, n)
	}
	for _, n := range model.WithSourceSizes([]int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 70000}, 1<<20) {
		if n <= 300 {
			continue
		}
		lens = append(lens, n)
	}
	for _, n := range lens {
		n := n
		if !yield(fmt.Sprintf("key length %d", n), func(t *mc.T) {
			long := strings.Repeat("k", n)
			esc := strings.Repeat(`\.`, n)
			other := long[:n-1] + "j"
			for _, k := range []string{long, "a." + long, long + ".a", esc, esc + "." + long} {
				for _, o := range []Op{New(Put, k, I(2)), New(TryPut, k, I(2)), New(Delete, k, nil), New(Put, other, I(3)), New(Delete, other, nil)} {
					t.At(Ops(fmt.Sprintf("key length %d", n), New(Put, k, I(1)), o))
					e, m := in.Make(), model.NewTree()
					Step(t, e, m, New(Put, k, I(1)))
					Step(t, e, m, o)
					Compare(t, e, m, Probes([]string{k, other, long}))
					t.Trace(1)
				}
			}
		}) {
			return false
		}
	}
	// Every byte in a name.
	for b := 0; b < 256; b++ {
		b := b
		if b == '\\' {
			continue
		}
		if !yield(fmt.Sprintf("byte %#02x", b), func(t *mc.T) {
			s := string([]byte{byte(b)})
			for _, k := range []string{s, "a" + s, s + "a", "a" + s + "b", "a." + s, s + ".a", "a." + s + "x.b", s + s} {
				for _, o := range []Op{New(Put, k, I(2)), New(TryPut, k, I(2)), New(Delete, k, nil), New(Put, "a", I(3)), New(Put, "ab", I(3)), New(Put, "A"+s, I(3))} {
					check(t, in, New(Put, k, I(1)), o)
				}
			}
		}) {
			return false
		}
	}
	// Unusual names, next to names they might be confused with.
	for _, name := range model.OddNames() {
		name := name
		if !yield(fmt.Sprintf("name %s", mc.Short(name)), func(t *mc.T) { odd(t, name) }) {
			return false
		}
	}
	// Every value kind with extreme payloads, at the top and below an object.
	for _, v := range model.Scalars() {
		v := v
		if !yield("value "+v.Canon(), func(t *mc.T) {
			for _, k := range []string{"a", "a.b", "a.b.c"} {
				for _, w := range []*model.V{v, model.A(v), model.KV("x", v)} {
					check(t, in, New(Put, k, w), New(Put, "b", model.I(1)), New(Put, k, model.N()))
					check(t, in, New(TryPut, k, w), New(Put, k, w), New(Delete, k, nil), New(TryPut, k, w))
					check(t, in, New(Put, "a", model.KV("b", model.KV("c", w))), New(Delete, k, nil))
				}
				for _, w := range model.Scalars() {
					check(t, in, New(Put, k, v), New(Put, k, w), New(Get, k, nil))
					check(t, in, New(Put, k, v), New(TryPut, k, w), New(Delete, k, nil))
				}
			}
		}) {
			return false
		}
	}
	return true
}

func odd(t *mc.T, name string) {
	// Below a value that is not an object the name means nothing.
	for _, v := range []*model.V{model.I(1), model.S(name), model.N(), model.A(), model.A(model.I(1), model.KV("b", model.I(2)), model.A(model.I(3))), model.A(model.KV(name, model.I(4))), model.KV("b", model.A(model.KV(name, model.I(4)), model.I(5)))} {
		for _, key := range []string{"n." + name, "n." + model.Escape(name), "n.b." + model.Escape(name), "n." + model.Escape(name) + ".b"} {
			if model.StrayBackslash(key) || strings.HasSuffix(name, `\`) {
				continue
			}
			for _, o := range []Op{New(Get, key, nil), New(Put, key, model.I(7)), New(TryPut, key, model.KV("b", model.I(8))), New(Delete, key, nil)} {
				t.Eval(1)
				e, m := event.New(), &model.Tree{Root: model.KV("n", v.Clone(), "z", model.I(9))}
				t.At(Ops("event "+m.Root.Canon(), o))
				e = model.Build(m.Root)
				Step(t, e, m, o)
				Compare(t, e, m, Probes([]string{key, "n", "n.b", "z"}))
				t.Trace(1)
			}
		}
	}
	other := func(k int) *model.V { return model.I(int64(k)) }
	model.Twins(name, other, func(key, twin string, path, twinPath []string, tree *model.V) {
		probes := Probes([]string{key, twin, "n", "z"})
		for _, o1 := range []Op{New(Put, key, model.I(70)), New(TryPut, key, model.I(71)), New(Delete, key, nil), New(Get, key, nil)} {
			for _, o2 := range []Op{New(Put, twin, model.I(72)), New(TryPut, twin, model.I(73)), New(Delete, twin, nil), New(Get, twin, nil)} {
				for _, o3 := range []Op{New(Get, key, nil), New(TryPut, key, model.I(74)), New(Delete, key, nil)} {
					t.Eval(1)
					t.At(Ops("event "+tree.Canon(), o1, o2, o3))
					e, m := model.Build(tree), &model.Tree{Root: tree.Clone()}
					for _, o := range []Op{o1, o2, o3} {
						Step(t, e, m, o)
						Compare(t, e, m, probes)
					}
					t.Trace(1)
				}
			}
		}
	})
	model.OddKeys(name, func(key string, path []string, mk func(*model.V) *model.V) {
		probes := Probes([]string{key, "n", "z", model.Escape(name), key + ".q"})
		for _, leaf := range []*model.V{nil, model.S("x"), model.N(), model.KV("q", model.I(1)), model.KV(name, model.KV(name, model.I(1)))} {
			tree := mk(model.OddTree(name, leaf, other))
			al := []Op{New(Put, key, model.I(70)), New(TryPut, key, model.I(71)), New(Delete, key, nil), New(Put, key+".q", model.N()), New(Delete, key+"."+model.Escape(name), nil), NewMove(key, "w")}
			for _, o1 := range al {
				for _, o2 := range al {
					t.Eval(1)
					t.At(Ops("event "+tree.Canon(), o1, o2))
					e, m := model.Build(tree), &model.Tree{Root: tree.Clone()}
					Compare(t, e, m, probes)
					Step(t, e, m, o1)
					Compare(t, e, m, probes)
					Step(t, e, m, o2)
					Compare(t, e, m, probes)
					t.Trace(1)
				}
			}
		}
	})
}

func widths(max int) []int {
	var w []int
	for i := 1; i <= 70; i++ {
		w = append(w, i)
	}
	for _, x := range model.WithSourceSizes([]int{100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2049}, 70000) {
		if x > 70 && (x <= max || x > 2100) {
			w = append(w, x)
		}
	}
	return w
}
