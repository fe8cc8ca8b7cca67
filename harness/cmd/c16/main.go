// C16: the append processor appends exactly as documented.
package main

import (
	"fmt"

	"github.com/andrewkroh/go-sawmill/pkg/event"

	"verif/mc"
	"verif/model"
	"verif/pr"
)

var (
	i, s, a, n = model.I, model.S, model.A, model.N
	kv         = model.KV
)

type opt struct {
	field, value         string
	dup, dupSet, missing bool
}

func (o opt) opts() pr.Opts {
	m := pr.Opts{"field": o.field, "value": o.value}
	if o.dup || o.dupSet {
		m["allow_duplicates"] = o.dup
	}
	if o.missing {
		m["ignore_missing"] = true
	}
	return m
}

func (o opt) String() string {
	return fmt.Sprintf("append field=%q value=%q allow_duplicates=%v ignore_missing=%v", o.field, o.value, o.dup, o.missing)
}

// ref returns the acceptable events afterwards (the first is the usual one), or
// failed.
func ref(tree *model.V, o opt) (after []*model.V, failed bool) {
	m := &model.Tree{Root: tree.Clone()}
	path := model.Path(o.field)
	cur := m.Get(path)
	var elems []*model.V
	present := false
	switch {
	case cur == nil || cur.K == model.Null:
	case cur.K == model.Object:
		return []*model.V{tree}, true
	case cur.K == model.Array:
		elems = append(elems, cur.A...)
		present = true
	default:
		elems = []*model.V{cur}
		present = true
	}
	for _, e := range elems {
		if !o.dup && e.K == model.String && e.S == o.value {
			// Nothing to add; a scalar may stay one or become an array.
			after = append(after, tree)
			if cur.K != model.Array {
				m.Put(path, a(elems...), true)
				after = append(after, m.Root)
			}
			return after, false
		}
	}
	if _, err := m.Put(path, a(append(elems, s(o.value))...), true); err != model.OK {
		return []*model.V{tree}, true
	}
	after = append(after, m.Root)
	if o.missing && !present {
		after = append(after, tree) // documented as "returns without modifying"
	}
	return after, false
}

func check(t *mc.T, p *pr.Proc, o opt, tree *model.V, mk func() *event.Event) (pr.Result, *model.V) {
	t.Eval(1)
	after, failed := ref(tree, o)
	r := p.Run(t, mk)
	loose := o.missing && failed && len(after) == 1 && (&model.Tree{Root: tree}).Get(model.Path(o.field)) == nil
	if failed != (r.Err != nil) && !loose {
		t.Fail("error %v, want failure: %v", r.Err, failed)
	}
	for _, w := range after {
		if model.MatchEvent(w, r.After) {
			t.Outcome(fmt.Sprint(failed, o.dup) + tree.Canon() + "|" + w.Canon())
			return r, w
		}
	}
	t.Fail("event is %s, want %s", model.Snapshot(r.After).Canon(), after[0].Canon())
	return r, nil
}

func fresh(t *mc.T, p *pr.Proc, o opt, tree *model.V) {
	check(t, p, o, tree, func() *event.Event { return model.Build(tree) })
	if model.BuildShared(tree) != nil {
		check(t, p, o, tree, func() *event.Event { return model.BuildShared(tree) })
	}
}

// again sends an event through the processor repeatedly.
func again(t *mc.T, p *pr.Proc, o opt, tree *model.V) {
	pr.Again(t, tree, func(tree *model.V, mk func() *event.Event) *event.Event {
		t.At(func() string { return o.String() + " on " + tree.Canon() })
		r, _ := check(t, p, o, tree, mk)
		return r.After
	})
}

func main() {
	mc.Main(&mc.Check{
		ID: "C16", Level: "exploration",
		Rule: "every event tree to a size x every field path x values x both flags; every sequence to a length of appends (and copies, removals, conversions) over a few fields on one event and through reused processors; arrays to a length; every unusual name and value at four spots next to those it might be confused with; distinct by (event before, event after, class)",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"event_nodes": pr.Pick(tier, 5, 6), "history": pr.Pick(tier, 5, 6), "unusual_names": len(model.OddNames()), "array_length": pr.Pick(tier, 300, 3000)}
		},
		Assumptions: []string{
			"a scalar equal to the value, with allow_duplicates off, may stay a scalar or become a one-element array",
			"with ignore_missing a missing or null field may be left as it is or be created",
			"value is a string: the option's declared type"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			spec := &model.TreeSpec{Leaves: []*model.V{s("x"), s("y"), n(), i(1)}, Names: []string{"a", "b", "a.b"}}
			var ts []*model.V
			for k := 1; k <= pr.Pick(tier, 5, 6); k++ {
				ts = append(ts, spec.Objects(k)...)
			}
			ts = append(ts, pr.Nils(4)...)
			keys := append(pr.Keys([]string{"a", "b", "a.b"}, 2), "a.a.a", "a.b.b.b", ".a.", "zz", ".", "")
			for _, key := range keys {
				for f := 0; f < 4; f++ {
					for _, val := range []string{"x", "y", ""} {
						o := opt{field: key, value: val, dup: f&1 != 0, dupSet: val == "y", missing: f&2 != 0}
						if key == "" {
							continue
						}
						if !yield(o.String(), func(t *mc.T) {
							p := pr.New(t, "append", o.opts())
							for _, tree := range ts {
								tree := tree
								if o.missing && tree.Size() > 4 {
									continue
								}
								t.At(func() string { return o.String() + " on " + tree.Canon() })
								fresh(t, p, o, tree)
							}
							t.Sample(o.String)
						}) {
							return
						}
					}
				}
			}
			// Every scalar kind as the existing value, alone and in an array.
			if !yield("scalars", func(t *mc.T) {
				for _, v := range model.Scalars() {
					for _, val := range []string{"", "x", "1", "0", "true", "false", "null", "1.5", "1970-01-01T00:00:00Z"} {
						for _, dup := range []bool{false, true} {
							for _, tree := range []*model.V{kv("f", v), kv("f", a(v)), kv("f", a(v, s("x"), v)), kv("f", a(a(v))), kv("f", v, "g", a(v)), kv("g", kv("f", v))} {
								o := opt{field: "f", value: val, dup: dup}
								tree := tree
								t.At(func() string { return o.String() + " on " + tree.Canon() })
								fresh(t, pr.New(t, "append", o.opts()), o, tree)
							}
						}
					}
				}
			}) {
				return
			}
			// Many events through one processor.
			for _, count := range model.Runs(pr.Pick(tier, 3000, 70000)) {
				for f := 0; f < 8; f++ {
					o, count := opt{field: []string{"a", "a.b"}[f>>2], value: "x", dup: f&1 != 0, missing: f&2 != 0}, count
					if !yield(fmt.Sprint(count, " events: ", o), func(t *mc.T) {
						p := pr.New(t, "append", o.opts())
						for k := 0; k < count; k++ {
							tree := ts[(k+k/1000)%1000]
							t.At(func() string { return fmt.Sprintf("event %d: %s on %s", k, o, tree.Canon()) })
							fresh(t, p, o, tree)
							if k < 1000 {
								again(t, p, o, tree)
							}
						}
					}) {
						return
					}
				}
			}
			// Unusual names and values, next to those they might be confused with.
			for _, n := range model.SourceInts(70000) {
				n := n
				if n < pr.Pick(tier, 300, 3000) {
					continue
				}
				if !yield(fmt.Sprint("length about ", n), func(t *mc.T) { lengths(t, n-1, n+2) }) {
					return
				}
			}
			for _, name := range model.OddNames() {
				name := name
				if !yield(fmt.Sprintf("name %q", pr.Clip2(name, 40)), func(t *mc.T) { odd(t, name) }) {
					return
				}
			}
			// Long arrays: lengths around every power of two, present and absent values.
			max := pr.Pick(tier, 300, 3000)
			for lo := 0; lo < max; lo += 100 {
				lo := lo
				if !yield(fmt.Sprintf("length %d..", lo), func(t *mc.T) { lengths(t, lo, lo+100) }) {
					return
				}
			}
			histories(tier, yield)
		},
	})
}

func odd(t *mc.T, name string) {
	other := func(k int) *model.V {
		if k%2 == 0 {
			return i(int64(k))
		}
		return a(s("x"))
	}
	model.OddKeys(name, func(key string, path []string, mk func(*model.V) *model.V) {
		for _, leaf := range []*model.V{nil, n(), s("x"), s("y"), a(), a(s("x"), i(1)), a(s("y"), i(1)), kv("q", s("x"))} {
			tree := mk(model.OddTree(name, leaf, other))
			for f := 0; f < 4; f++ {
				o := opt{field: key, value: "x", dup: f&1 != 0, missing: f&2 != 0}
				t.At(func() string { return o.String() + " on " + pr.Clip(tree.Canon()) })
				fresh(t, pr.New(t, "append", o.opts()), o, tree)
			}
		}
	})
	// As the value: only an equal string is a duplicate.
	same := model.OddTree(name, nil, other)
	list := a()
	for _, c := range model.Names(same) {
		list.A = append(list.A, s(c))
	}
	for _, tree := range []*model.V{kv(), kv("f", list), kv("f", a(append(list.A, s(name))...)), kv("f", s(name)), kv("f", kv(name, s(name)))} {
		for _, dup := range []bool{false, true} {
			o := opt{field: "f", value: name, dup: dup}
			t.At(func() string { return o.String() + " on " + pr.Clip(tree.Canon()) })
			fresh(t, pr.New(t, "append", o.opts()), o, tree)
		}
	}
}

// step of a history: an append, or something that may share state with it.
type step struct {
	name string
	run  func(t *mc.T, e *event.Event, m *model.Tree) (*event.Event, *model.Tree)
}

func steps(t *mc.T) []step {
	var out []step
	add := func(o opt) {
		p := pr.New(t, "append", o.opts())
		out = append(out, step{o.String(), func(t *mc.T, e *event.Event, m *model.Tree) (*event.Event, *model.Tree) {
			r, w := check(t, p, o, m.Root, func() *event.Event { return e })
			return r.After, &model.Tree{Root: w}
		}})
	}
	add(opt{field: "a", value: "x"})
	add(opt{field: "a", value: "y", dup: true})
	add(opt{field: "b", value: "x", dup: true})
	add(opt{field: "b.c", value: "z"})
	other := func(name, typ string, opts pr.Opts, model_ func(m *model.Tree) error) {
		p := pr.New(t, typ, opts)
		out = append(out, step{name, func(t *mc.T, e *event.Event, m *model.Tree) (*event.Event, *model.Tree) {
			p.Run(t, func() *event.Event { return e })
			m = &model.Tree{Root: m.Root.Clone()}
			model_(m)
			return e, m
		}})
	}
	cp := func(from, to string) {
		other("set "+to+" copy_from "+from, "set", pr.Opts{"copy_from": from, "target_field": to}, func(m *model.Tree) error {
			v := m.Get([]string{from})
			if v != nil && v.K != model.Null {
				m.Put([]string{to}, v.Clone(), true)
			}
			return nil
		})
	}
	cp("a", "b")
	cp("b", "a")
	other("set a value [p,q]", "set", pr.Opts{"target_field": "a", "value": []interface{}{"p", "q"}}, func(m *model.Tree) error {
		m.Put([]string{"a"}, a(s("p"), s("q")), true)
		return nil
	})
	other("remove a", "remove", pr.Opts{"fields": []string{"a"}}, func(m *model.Tree) error {
		m.Delete([]string{"a"})
		return nil
	})
	out = append(out, step{"put b = array of a's elements", func(t *mc.T, e *event.Event, m *model.Tree) (*event.Event, *model.Tree) {
		m = &model.Tree{Root: m.Root.Clone()}
		v := e.Get("a")
		if mv := m.Get([]string{"a"}); v != nil && mv.K == model.Array {
			e.Put("b", event.Array(v.Array...))
			m.Put([]string{"b"}, mv.Clone(), true)
		}
		return e, m
	}})
	return out
}

func histories(tier string, yield func(string, func(*mc.T)) bool) {
	depth := pr.Pick(tier, 5, 6)
	count := len(stepNames)
	for x := 0; x < count; x++ {
		for y := 0; y < count; y++ {
			x, y := x, y
			if !yield(fmt.Sprintf("history %d %d", x, y), func(t *mc.T) {
				ss := steps(t)
				if len(ss) != count {
					t.Fail("harness: %d steps", len(ss))
				}
				idx := make([]int, depth)
				idx[0], idx[1] = x, y
				for {
					e, m := event.New(), model.NewTree()
					names := ""
					t.At(func() string { return "history" + names })
					for _, k := range idx {
						names += "; " + ss[k].name
						e, m = ss[k].run(t, e, m)
						pr.Same(t, e, m.Root, "after the last step")
					}
					t.Trace(1)
					k := depth - 1
					for ; k >= 2; k-- {
						idx[k]++
						if idx[k] < count {
							break
						}
						idx[k] = 0
					}
					if k < 2 {
						return
					}
				}
			}) {
				return
			}
		}
	}
}

var stepNames = [9]struct{}{}

func lengths(t *mc.T, lo, hi int) {
	for l := lo; l < hi; l++ {
		arr := a()
		for k := 0; k < l; k++ {
			arr.A = append(arr.A, s(fmt.Sprint("e", k)))
		}
		for _, val := range []string{"x", "e0", fmt.Sprint("e", l/2), fmt.Sprint("e", l-1)} {
			for _, dup := range []bool{false, true} {
				o := opt{field: "f.g", value: val, dup: dup}
				tree := kv("f", kv("g", arr, "h", i(1)))
				t.At(func() string { return fmt.Sprint(o, " on an array of ", l) })
				fresh(t, pr.New(t, "append", o.opts()), o, tree)
			}
		}
	}
}
