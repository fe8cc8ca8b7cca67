// C22: the array append helper keeps every element and reports failure.
package main

import (
	"fmt"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"

	"verif/mc"
	"verif/model"
	"verif/pr"
)

var (
	i, s, a, n = model.I, model.S, model.A, model.N
	kv         = model.KV
)

// ref returns the event afterwards.
func ref(tree *model.V, key string, item *model.V) (*model.V, model.Err) {
	if item == nil {
		return tree, model.OK
	}
	m := &model.Tree{Root: tree.Clone()}
	path := model.Path(key)
	arr := a()
	if len(path) > 0 {
		if cur := m.Get(path); cur != nil {
			arr.A = append(arr.A, cur)
			if cur.K == model.Array {
				arr.A = append([]*model.V{}, cur.A...)
			}
		}
	}
	if item.K == model.Array {
		for _, e := range item.A {
			arr.A = append(arr.A, e.Clone())
		}
	} else {
		arr.A = append(arr.A, item.Clone())
	}
	if _, err := m.Put(path, arr, true); err != model.OK {
		return tree, err
	}
	return m.Root, model.OK
}

func do(t *mc.T, e *event.Event, tree *model.V, key string, item *model.V, it *event.Value) *model.V {
	t.Eval(1)
	t.Trans(1)
	want, werr := ref(tree, key, item)
	err := eventutil.Append(e, key, it)
	if (err != nil) != (werr != model.OK) {
		t.Fail("error %v, want %v", err, werr)
	}
	pr.Same(t, e, want, "afterwards")
	if item != nil && !model.Match(item, it) {
		t.Fail("the item is now %s", model.From(it).Canon())
	}
	return want
}

// shared does it on an event in which equal scalars are one value.
func shared(t *mc.T, tree *model.V, key string, item *model.V) {
	if e := model.BuildShared(tree); e != nil {
		do(t, e, tree, key, item, real(item))
	}
}

func real(item *model.V) *event.Value {
	if item == nil {
		return nil
	}
	return item.Real()
}

func main() {
	mc.Main(&mc.Check{
		ID: "C22", Level: "exploration",
		Rule: "every event tree to a size x every key x every item; every sequence to a length of appends, copies and removals on one event, items shared between calls and taken from the event itself; array lengths x item lengths; every unusual name at four spots next to those it might be confused with; distinct by (event before, event after)",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"event_nodes": pr.Pick(tier, 5, 6), "item_nodes": pr.Pick(tier, 3, 4), "history": pr.Pick(tier, 4, 5), "array_length": pr.Pick(tier, 70, 300)}
		},
		Assumptions: []string{"an item that is the null value is an item; only a nil item is none"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			spec := &model.TreeSpec{Leaves: []*model.V{s("x"), n()}, Names: []string{"a", "b", "a.b"}}
			var ts []*model.V
			for k := 1; k <= pr.Pick(tier, 5, 6); k++ {
				ts = append(ts, spec.Objects(k)...)
			}
			ts = append(ts, pr.Nils(4)...)
			items := []*model.V{nil}
			is := &model.TreeSpec{Leaves: []*model.V{s("x"), i(1), n()}, Names: []string{"a", "q"}}
			for k := 1; k <= pr.Pick(tier, 3, 4); k++ {
				items = append(items, is.Of(k)...)
			}
			keys := append(pr.Keys([]string{"a", "b", "a.b"}, 2), "a.b.a", ".a.", "zz", "y.z.w", ".", "", "a.")
			for _, key := range keys {
				for x, item := range items {
					key, item := key, item
					if !yield(fmt.Sprintf("%q item %d", key, x), func(t *mc.T) {
						for _, tree := range ts {
							if tree.Size() > 5 && item != nil && item.Size() > 2 {
								continue
							}
							t.At(func() string { return fmt.Sprintf("Append(%q, %s) on %s", key, item.Canon(), tree.Canon()) })
							shared(t, tree, key, item)
							w := do(t, model.Build(tree), tree, key, item, real(item))
							t.Outcome(tree.Canon() + "|" + w.Canon())
						}
						t.Sample(func() string { return fmt.Sprintf("Append(%q, %s)", key, item.Canon()) })
					}) {
						return
					}
				}
			}
			if !yield("scalars", func(t *mc.T) {
				for _, v := range model.Scalars() {
					for _, item := range append(model.Scalars(), a(), a(v), kv()) {
						for _, tree := range []*model.V{kv(), kv("f", v), kv("f", a(v, v)), kv("f", kv("g", v))} {
							t.At(func() string { return fmt.Sprintf("Append(f, %s) on %s", item.Canon(), tree.Canon()) })
							do(t, model.Build(tree), tree, "f", item, item.Real())
						}
					}
				}
			}) {
				return
			}
			for _, name := range model.OddNames() {
				name := name
				if !yield(fmt.Sprintf("name %q", pr.Clip2(name, 40)), func(t *mc.T) { odd(t, name) }) {
					return
				}
			}
			for _, w := range model.WideSizes() {
				w := w
				if !yield(fmt.Sprint("wide ", w), func(t *mc.T) {
					for _, v := range model.Wide(w) {
						for _, key := range []string{"a", "o", "k1", "o.k4", "o.a\\.b", "o.s", "z", "new", "o.new.x"} {
							for _, item := range []*model.V{i(1), n(), a(), a(i(1), s("x"), n()), v.O["a"], v} {
								if item == nil {
									continue
								}
								item := item
								t.At(func() string {
									return fmt.Sprintf("Append(%q, %s) on %s", key, pr.Clip(item.Canon()), pr.Clip(v.Canon()))
								})
								do(t, model.Build(v), v, key, item, item.Real())
							}
						}
					}
				}) {
					return
				}
			}
			max := pr.Pick(tier, 70, 300)
			for _, l := range append([]int{0}, model.Sizes(max, 5000)...) {
				l := l
				if !yield(fmt.Sprint("lengths ", l), func(t *mc.T) { lengths(t, l) }) {
					return
				}
			}
			histories(tier, yield)
		},
	})
}

// lengths appends to an array of l elements, in spare capacity or not.
func lengths(t *mc.T, l int) {
	for _, m := range []int{0, 1, 2, 3, 7, 8, 9, 64, l} {
		for _, spare := range []int{0, 1, m, 100} {
			arr, item := a(), a()
			vals := make([]*event.Value, 0, l+spare)
			for k := 0; k < l; k++ {
				arr.A = append(arr.A, i(int64(k)))
				vals = append(vals, event.Integer(int64(k)))
			}
			for k := 0; k < m; k++ {
				item.A = append(item.A, s(fmt.Sprint(k)))
			}
			t.At(func() string { return fmt.Sprintf("Append of %d items to %d, twice, spare capacity %d", m, l, spare) })
			e := event.New()
			e.Put("f.g", event.Array(vals...))
			e.Put("o", event.Array(vals...))
			root := kv("f", kv("g", arr), "o", arr)
			it := item.Real()
			root = do(t, e, root, "f.g", item, it)
			root = do(t, e, root, "o", s("z"), event.String("z"))
			root = do(t, e, root, "f.g", item, it)
			root = do(t, e, root, "f.g", s("last"), event.String("last"))
			root = do(t, e, root, "n", item, it)
			do(t, e, root, "n", s("last"), event.String("last"))
		}
	}
}

var stepCount = [13]struct{}{}

type step struct {
	name string
	run  func(t *mc.T, e *event.Event, root *model.V) *model.V
}

func steps() []step {
	// One item used by every call of a history: reuse must be harmless.
	var out []step
	app := func(key string, item *model.V) {
		out = append(out, step{fmt.Sprintf("Append(%s, %s)", key, item.Canon()), func(t *mc.T, e *event.Event, root *model.V) *model.V {
			return do(t, e, root, key, item, real(item))
		}})
	}
	shared := a(s("p"), s("q"))
	var sharedReal *event.Value
	reuse := func(key string) {
		out = append(out, step{fmt.Sprintf("Append(%s, the same item %s)", key, shared.Canon()), func(t *mc.T, e *event.Event, root *model.V) *model.V {
			if len(root.O) == 0 || sharedReal == nil {
				sharedReal = shared.Real()
			}
			return do(t, e, root, key, shared, sharedReal)
		}})
	}
	app("a", s("x"))
	app("a", a(s("y"), i(1)))
	app("a", n())
	app("b", s("x"))
	app("b.c", s("z"))
	reuse("a")
	reuse("b")
	own := func(key, from string) {
		out = append(out, step{fmt.Sprintf("Append(%s, copy of Get(%s))", key, from), func(t *mc.T, e *event.Event, root *model.V) *model.V {
			v := (&model.Tree{Root: root}).Get(model.Path(from))
			if v == nil {
				return root
			}
			item := v.Clone()
			want, werr := ref(root, key, item)
			err := eventutil.Append(e, key, e.Get(from).Clone())
			t.Trans(1)
			t.Eval(1)
			if (err != nil) != (werr != model.OK) {
				t.Fail("error %v, want %v", err, werr)
			}
			pr.Same(t, e, want, "afterwards")
			return want
		}})
	}
	own("a", "a")
	own("b", "a")
	op := func(name string, f func(t *mc.T, e *event.Event, m *model.Tree)) {
		out = append(out, step{name, func(t *mc.T, e *event.Event, root *model.V) *model.V {
			m := &model.Tree{Root: root.Clone()}
			f(t, e, m)
			pr.Same(t, e, m.Root, "afterwards")
			return m.Root
		}})
	}
	op("Put(b, Array(elements of a...))", func(t *mc.T, e *event.Event, m *model.Tree) {
		if v := m.Get([]string{"a"}); v != nil && v.K == model.Array {
			e.Put("b", event.Array(e.Get("a").Array...))
			m.Put([]string{"b"}, v.Clone(), true)
		}
	})
	op("Put(a, y)", func(t *mc.T, e *event.Event, m *model.Tree) {
		e.Put("a", event.String("y"))
		m.Put([]string{"a"}, s("y"), true)
	})
	op("Delete(a)", func(t *mc.T, e *event.Event, m *model.Tree) {
		e.Delete("a")
		m.Delete([]string{"a"})
	})
	op("Put(a, shared array's elements with one fewer)", func(t *mc.T, e *event.Event, m *model.Tree) {
		if v := m.Get([]string{"b"}); v != nil && v.K == model.Array && len(v.A) > 1 {
			el := e.Get("b").Array
			e.Put("a", event.Array(el[:len(el)-1]...))
			m.Put([]string{"a"}, a(v.Clone().A[:len(v.A)-1]...), true)
		}
	})
	return out
}

func histories(tier string, yield func(string, func(*mc.T)) bool) {
	depth, count := pr.Pick(tier, 4, 5), len(stepCount)
	for x := 0; x < count; x++ {
		for y := 0; y < count; y++ {
			x, y := x, y
			if !yield(fmt.Sprintf("history %d %d", x, y), func(t *mc.T) {
				ss := steps()
				if len(ss) != count {
					t.Fail("harness: %d steps", len(ss))
				}
				idx := make([]int, depth)
				idx[0], idx[1] = x, y
				for {
					e, root, names := event.New(), kv(), ""
					t.At(func() string { return "history" + names })
					for _, k := range idx {
						names += "; " + ss[k].name
						root = ss[k].run(t, e, root)
					}
					t.Trace(1)
					t.Outcome(names + root.Canon())
					k := depth - 1
					for ; k >= 2; k-- {
						idx[k]++
						if idx[k] < count {
							break
						}
						idx[k] = 0
					}
					if k < 2 {
						return
					}
				}
			}) {
				return
			}
		}
	}
}

// odd appends to a field with an unusual name, next to fields it might be
// confused with.
func odd(t *mc.T, name string) {
	other := func(k int) *model.V { return i(int64(k)) }
	model.OddKeys(name, func(key string, path []string, mk func(*model.V) *model.V) {
		for _, leaf := range []*model.V{nil, n(), s("x"), a(), a(s("x")), kv("q", i(1))} {
			tree := mk(model.OddTree(name, leaf, other))
			for _, item := range []*model.V{nil, n(), s("x"), s(name), a(s(name), i(1)), kv(name, n()), a()} {
				t.At(func() string { return fmt.Sprintf("Append(%q, %s) on %s", key, item.Canon(), pr.Clip(tree.Canon())) })
				do(t, model.Build(tree), tree, key, item, real(item))
			}
		}
	})
}
