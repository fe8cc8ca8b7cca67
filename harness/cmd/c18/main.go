// C18: the remove processor removes exactly its fields.
package main

import (
	"fmt"

	"github.com/andrewkroh/go-sawmill/pkg/event"

	"verif/mc"
	"verif/model"
	"verif/pr"
)

var (
	i, s, a, n = model.I, model.S, model.A, model.N
	kv         = model.KV
)

func overlap(paths [][]string) bool {
	for x := range paths {
		for y := range paths {
			if x != y && len(paths[x]) > 0 && pr.Prefix(paths[x], paths[y]) {
				return true
			}
		}
	}
	return false
}

func run(t *mc.T, p *pr.Proc, fields []string, paths [][]string, over, ignore bool, tree *model.V) {
	turn(t, p, fields, paths, over, ignore, tree, func() *event.Event { return model.Build(tree) })
	if model.BuildShared(tree) != nil {
		turn(t, p, fields, paths, over, ignore, tree, func() *event.Event { return model.BuildShared(tree) })
	}
}

// turn does the work; it returns the event if the processor succeeded.
func turn(t *mc.T, p *pr.Proc, fields []string, paths [][]string, over, ignore bool, tree *model.V, mk func() *event.Event) *event.Event {
	t.Eval(1)
	t.At(func() string {
		return fmt.Sprintf("remove fields=%q ignore_missing=%v on %s", fields, ignore, tree.Canon())
	})
	m := &model.Tree{Root: tree.Clone()}
	missing := map[string]bool{}
	for k, f := range fields {
		if len(paths[k]) == 0 || (&model.Tree{Root: tree}).Get(paths[k]) == nil { // no path, no field
			missing[f] = true
		}
	}
	for _, path := range paths {
		m.Delete(path)
	}
	r := p.Run(t, mk)
	if len(missing) == 0 && !over || ignore {
		if r.Err != nil {
			t.Fail("failed: %v", r.Err)
		}
		pr.Same(t, r.After, m.Root, "afterwards")
		t.Outcome(tree.Canon() + "|" + m.Root.Canon())
		return r.After
	}
	if len(missing) > 0 && r.Err == nil {
		t.Fail("succeeded although %v do not exist", missing)
	}
	if r.Err == nil {
		pr.Same(t, r.After, m.Root, "afterwards")
		return r.After
	}
	key, ok := r.Missing()
	if !ok {
		t.Fail("failed with %v, not with a missing key", r.Err)
	}
	if !missing[key] && !over {
		t.Fail("reports %q missing, which exists", key)
	}
	listed := false
	for _, f := range fields {
		listed = listed || f == key
	}
	if !listed {
		t.Fail("reports %q missing, which is not listed", key)
	}
	// Nothing but listed fields may have changed: each is there as it was or
	// gone.
	after := r.After
	for _, path := range paths {
		k := model.Key(path...)
		if got := after.Get(k); len(path) > 0 && got != nil && !over {
			if want := (&model.Tree{Root: tree}).Get(path); !model.Match(want, got) {
				t.Fail("listed field %q changed to %s", k, model.From(got).Canon())
			}
		}
		after.Delete(k)
	}
	pr.Same(t, after, m.Root, "fields not listed, after a failure")
	t.Outcome("failed " + key + tree.Canon())
	return nil
}

func main() {
	mc.Main(&mc.Check{
		ID: "C18", Level: "exploration",
		Rule: "every event tree to a size x every list of field paths to a length x both settings of ignore_missing, plus every unusual name (spaces, controls, other scripts, punctuation, escapes, numbers, long) at four spots next to the names it might be confused with, long lists and wide or deep events; distinct by (event before, event after or missing key)",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"event_nodes": pr.Pick(tier, 5, 6), "fields": pr.Pick(tier, 2, 3), "unusual_names": len(model.OddNames()), "long_list": pr.Pick(tier, 200, 2000)}
		},
		Assumptions: []string{
			"a list in which one field is inside another, or listed twice, may fail (the inner one is gone when its turn comes)",
			"which of several missing fields is named, and how many of the listed fields are still removed after a failure, is open"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			spec := &model.TreeSpec{Leaves: []*model.V{s("x"), n()}, Names: []string{"a", "b", "a.b"}}
			var ts, small []*model.V
			for k := 1; k <= pr.Pick(tier, 5, 6); k++ {
				ts = append(ts, spec.Objects(k)...)
				if k <= 4 {
					small = append(small, spec.Objects(k)...)
				}
			}
			ts, small = append(ts, pr.Nils(4)...), append(small, pr.Nils(4)...)
			keys := append(pr.Keys([]string{"a", "b", "a.b"}, 2), "a.b.a", ".b", "zz.a", ".")
			paths := map[string][]string{}
			for _, k := range keys {
				paths[k] = model.Path(k)
			}
			lists := func(n int, f func(fields []string) bool) bool {
				idx := make([]int, n)
				for {
					fields := make([]string, n)
					for k, x := range idx {
						fields[k] = keys[x]
					}
					if !f(fields) {
						return false
					}
					k := n - 1
					for ; k >= 0; k-- {
						idx[k]++
						if idx[k] < len(keys) {
							break
						}
						idx[k] = 0
					}
					if k < 0 {
						return true
					}
				}
			}
			for n := 1; n <= pr.Pick(tier, 3, 3); n++ {
				n := n
				use := ts
				if n == 3 {
					use = small
					if tier != "thorough" {
						use = nil
						for _, tree := range small {
							if tree.Size() >= 3 && tree.Size() <= 4 && !tree.Any(func(v *model.V) bool { return v.K == model.Null || v.K == model.Array }) {
								use = append(use, tree)
							}
						}
					}
				}
				if !lists(n, func(fields []string) bool {
					return yield(fmt.Sprintf("fields %q", fields), func(t *mc.T) {
						var ps [][]string
						for _, f := range fields {
							ps = append(ps, paths[f])
						}
						over := overlap(ps)
						for _, ignore := range []bool{false, true} {
							opts := pr.Opts{"fields": fields}
							if ignore {
								opts["ignore_missing"] = true
							}
							p := pr.New(t, "remove", opts)
							for _, tree := range use {
								run(t, p, fields, ps, over, ignore, tree)
							}
						}
						t.Sample(func() string { return fmt.Sprintf("%q", fields) })
					})
				}) {
					return
				}
			}
			// Many events through one processor.
			for _, count := range model.Runs(pr.Pick(tier, 3000, 70000)) {
				for _, fields := range [][]string{{"a"}, {"a.b"}, {"b", "a.a"}, {"a.a", "a.b", "b"}} {
					for _, ignore := range []bool{false, true} {
						fields, ignore, count := fields, ignore, count
						if !yield(fmt.Sprintf("%d events: fields %q %v", count, fields, ignore), func(t *mc.T) {
							var ps [][]string
							for _, f := range fields {
								ps = append(ps, model.Path(f))
							}
							p := pr.New(t, "remove", pr.Opts{"fields": fields, "ignore_missing": ignore})
							for k := 0; k < count; k++ {
								run(t, p, fields, ps, false, ignore, ts[(k+k/len(ts))%len(ts)])
								if k < len(small) {
									// One event again and again; the fields are put back before
									// every turn.
									pr.Again(t, small[k], func(tree *model.V, mk func() *event.Event) *event.Event {
										e := mk()
										mt := &model.Tree{Root: tree}
										for x, path := range ps {
											mt.Put(path, i(int64(x)), true)
											e.Put(fields[x], event.Integer(int64(x)))
										}
										return turn(t, p, fields, ps, false, ignore, tree, func() *event.Event { return e })
									})
								}
							}
						}) {
							return
						}
					}
				}
			}
			// Unusual names, next to names they might be confused with.
			for _, name := range model.OddNames() {
				name := name
				if !yield(fmt.Sprintf("name %q", pr.Clip2(name, 40)), func(t *mc.T) { odd(t, name) }) {
					return
				}
			}
			// Long lists with one, two or all fields missing.
			max := pr.Pick(tier, 200, 2000)
			for _, l := range model.WithSourceSizes(lengths(max), 5000) {
				l := l
				if !yield(fmt.Sprint("long ", l), func(t *mc.T) { long(t, l) }) {
					return
				}
			}
		},
	})
}

func lengths(max int) []int {
	var out []int
	for l := 1; l <= max; l++ {
		if l <= 40 || l&(l-1) == 0 || (l+1)&l == 0 || (l-1)&(l-2) == 0 || l%100 == 0 {
			out = append(out, l)
		}
	}
	return out
}

func odd(t *mc.T, name string) {
	other := func(k int) *model.V { return i(int64(k)) }
	model.Twins(name, other, func(key, twin string, path, twinPath []string, tree *model.V) {
		for n, fields := range [][]string{{key, twin}, {twin, key}, {key, "zz", twin}, {twin, key, "zz"}} {
			for _, ignore := range []bool{false, true} {
				var ps [][]string
				for _, f := range fields {
					ps = append(ps, model.Path(f))
				}
				if n == 1 || !ignore { // with one of them missing as well
					less := &model.Tree{Root: tree.Clone()}
					less.Delete(path)
					run(t, pr.New(t, "remove", pr.Opts{"fields": fields, "ignore_missing": ignore}), fields, ps, overlap(ps), ignore, less.Root)
				}
				run(t, pr.New(t, "remove", pr.Opts{"fields": fields, "ignore_missing": ignore}), fields, ps, overlap(ps), ignore, tree)
			}
		}
	})
	model.OddKeys(name, func(key string, path []string, mk func(*model.V) *model.V) {
		for _, leaf := range []*model.V{nil, s("x"), n(), kv("q", i(1))} {
			tree := mk(model.OddTree(name, leaf, other))
			for _, fields := range [][]string{{key}, {"zz", key}, {key, "zz"}, {key, key}} {
				var ps [][]string
				for _, f := range fields {
					ps = append(ps, model.Path(f))
				}
				for _, ignore := range []bool{false, true} {
					opts := pr.Opts{"fields": fields}
					if ignore {
						opts["ignore_missing"] = true
					}
					run(t, pr.New(t, "remove", opts), fields, ps, overlap(ps), ignore, tree)
				}
			}
		}
	})
}

func long(t *mc.T, l int) {
	tree := kv("keep", kv("x", s("y"), "l", a(i(1))))
	var fields []string
	var ps [][]string
	for k := 0; k < l; k++ {
		name := fmt.Sprintf("f%d", k)
		switch k % 3 {
		case 0:
			tree.O[name] = i(int64(k))
			fields = append(fields, name)
		case 1:
			tree.O[name] = kv("in", s("v"), "stay", s("w"))
			fields = append(fields, name+".in")
		case 2:
			tree.O["keep"].O[name+".d"] = n()
			fields = append(fields, "keep."+name+`\.d`)
		}
		ps = append(ps, model.Path(fields[k]))
	}
	gone := []int{0, l / 2, l - 1}
	for mask := 0; mask < 8; mask++ {
		tr := &model.Tree{Root: tree.Clone()}
		for b, k := range gone {
			if mask&(1<<b) != 0 {
				tr.Delete(ps[k])
			}
		}
		for _, ignore := range []bool{false, true} {
			opts := pr.Opts{"fields": fields}
			if ignore {
				opts["ignore_missing"] = true
			}
			run(t, pr.New(t, "remove", opts), fields, ps, false, ignore, tr.Root)
		}
	}
	run(t, pr.New(t, "remove", pr.Opts{"fields": fields, "ignore_missing": true}), fields, ps, false, true, kv("keep", i(1)))
}
