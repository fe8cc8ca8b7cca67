// C15: the set processor stores an independent copy at its target only.
package main

import (
	"fmt"
	"strconv"
	"time"

	"github.com/andrewkroh/go-sawmill/pkg/event"

	"verif/mc"
	"verif/model"
	"verif/pr"
)

var (
	i, s, a, n = model.I, model.S, model.A, model.N
	kv         = model.KV
)

// want is the reference result of one execution.
type want struct {
	root    *model.V // expected event afterwards
	missing string   // key reported missing
	failed  bool
	loose   bool // only "no other field changed" is specified
	store   *model.V
}

func ref(tree *model.V, value *model.V, copyFrom, target string) want {
	var src *model.V
	m := &model.Tree{Root: tree.Clone()}
	if value != nil {
		src = value
	} else {
		src = m.Get(model.Path(copyFrom))
		if src == nil || src.K == model.Null {
			return want{root: tree, missing: copyFrom, failed: true}
		}
		src = src.Clone()
	}
	if _, err := m.Put(model.Path(target), src.Clone(), true); err != model.OK {
		return want{root: tree, failed: true}
	}
	return want{root: m.Root, store: src}
}

// Values whose configured form go-ucfg does not keep.
func lossy(v *model.V) bool {
	return v.Any(func(x *model.V) bool {
		if x.K != model.Object {
			return x.K == model.Time
		}
		if len(x.O) == 0 {
			return true
		}
		for k := range x.O {
			_, err := strconv.ParseInt(k, 0, 64)
			if err == nil {
				return true
			}
		}
		return false
	})
}

type opt struct {
	value                        *model.V
	copyFrom, target             string
	ignoreMissing, ignoreFailure bool
}

func (o opt) opts() pr.Opts {
	m := pr.Opts{"target_field": o.target}
	if o.value != nil {
		m["value"] = pr.ToGo(o.value)
	}
	if o.copyFrom != "" {
		m["copy_from"] = o.copyFrom
	}
	if o.ignoreMissing {
		m["ignore_missing"] = true
	}
	if o.ignoreFailure {
		m["ignore_failure"] = true
	}
	return m
}

func (o opt) String() string {
	v := "none"
	if o.value != nil {
		v = o.value.Canon()
	}
	return fmt.Sprintf("set value=%s copy_from=%q target_field=%q ignore_missing=%v ignore_failure=%v", v, o.copyFrom, o.target, o.ignoreMissing, o.ignoreFailure)
}

// same compares allowing for the signedness of configured integers.
func same(t *mc.T, o opt, got *event.Event, root *model.V, what string) {
	if model.MatchEvent(root, got) {
		return
	}
	if o.value != nil && model.Equal(pr.Signed(model.Snapshot(got)), pr.Signed(root)) {
		return
	}
	t.Fail("%s: event is %s, want %s", what, model.Snapshot(got).Canon(), root.Canon())
}

// run checks one configured processor on one tree.
func run(t *mc.T, p *pr.Proc, o opt, tree *model.V, deep bool) {
	turn(t, p, o, tree, deep, func() *event.Event { return model.Build(tree) })
	if model.BuildShared(tree) != nil {
		turn(t, p, o, tree, false, func() *event.Event { return model.BuildShared(tree) })
	}
}

// again sends each event through the processor repeatedly.
func again(t *mc.T, p *pr.Proc, o opt, trees []*model.V) {
	for _, tree := range trees {
		pr.Again(t, tree, func(tree *model.V, mk func() *event.Event) *event.Event {
			return turn(t, p, o, tree, false, mk)
		})
	}
}

// turn does the work; it returns the event after the processor.
func turn(t *mc.T, p *pr.Proc, o opt, tree *model.V, deep bool, mk func() *event.Event) *event.Event {
	t.At(func() string { return o.String() + " on " + tree.Canon() })
	t.Eval(1)
	w := ref(tree, o.value, o.copyFrom, o.target)
	tp := model.Path(o.target)
	if o.value == nil && len(model.Path(o.copyFrom)) == 0 && len(tree.O) == 0 {
		return nil // the root of an empty event: neither missing nor not
	}
	r := p.Run(t, mk)
	forgiven := w.failed && (o.ignoreFailure || o.ignoreMissing && w.missing != "")
	switch {
	case forgiven && r.Err != nil:
		t.Fail("reported %v", r.Err)
	case w.failed && !forgiven && r.Err == nil:
		t.Fail("succeeded; event is %s", model.Snapshot(r.After).Canon())
	case !w.failed && r.Err != nil:
		t.Fail("failed: %v", r.Err)
	}
	if r.Err != nil {
		key, miss := r.Missing()
		if miss != (w.missing != "") {
			t.Fail("error %v: missing key reported %v, want %v", r.Err, miss, w.missing != "")
		}
		if miss && key != w.missing {
			t.Fail("reports %q missing, want %q", key, w.missing)
		}
	}
	if w.root == tree {
		w.root = tree.Clone()
	}
	model.DropNil(w.root)
	same(t, o, r.After, w.root, "after set")
	t.Outcome(fmt.Sprint(w.failed, w.missing != "", o.value == nil, o.ignoreFailure, o.ignoreMissing) + tree.Canon() + "|" + w.root.Canon())
	if w.failed || !deep {
		return r.After
	}
	// Later changes to the stored value.
	rest := (&model.Tree{Root: w.root.Clone()})
	rest.Delete(tp)
	stored := r.After.Get(o.target)
	pr.Scramble(stored)
	r.After.Delete(o.target)
	pr.Same(t, r.After, rest.Root, "after changing the stored value in place and deleting it")
	// The next event must not see them.
	r2 := p.Run(t, mk)
	same(t, o, r2.After, w.root, "second event, after the value stored in the first one was changed")
	// Changes through the event's own operations.
	for _, k := range []string{o.target + ".zz", o.target + ".zz.y", o.target} {
		if _, err := r2.After.Put(k, event.String("changed")); err == nil {
			m := &model.Tree{Root: w.root.Clone()}
			m.Put(model.Path(k), s("changed"), true)
			same(t, o, r2.After, m.Root, "after put "+k)
			r2.After.Put(o.target, w.store.Real())
		}
	}
	// Later changes to the source field.
	if sp := model.Path(o.copyFrom); o.value == nil && !pr.Prefix(sp, tp) && !pr.Prefix(tp, sp) {
		r3 := p.Run(t, mk)
		pr.Scramble(r3.After.Get(o.copyFrom))
		if got := r3.After.Get(o.target); !model.Match(w.store, got) {
			t.Fail("after changing the source field in place the stored value is %s, want %s", model.From(got).Canon(), w.store.Canon())
		}
	}
	return nil
}

func trees(max int) []*model.V {
	spec := &model.TreeSpec{Leaves: []*model.V{i(1), n()}, Names: []string{"a", "b", "a.b"}}
	var out []*model.V
	for k := 1; k <= max; k++ {
		out = append(out, spec.Objects(k)...)
	}
	return append(out, pr.Nils(4)...)
}

func values(max int) []*model.V {
	out := []*model.V{}
	for _, v := range model.Scalars() {
		if v.K != model.Null && v.K != model.Time && !(v.K == model.Float && (v.F != v.F)) {
			out = append(out, v)
		}
	}
	spec := &model.TreeSpec{Leaves: []*model.V{i(1), s("x"), n()}, Names: []string{"a", "b.c", ""}}
	for k := 1; k <= max; k++ {
		for _, v := range spec.Of(k) {
			if v.K == model.Array || v.K == model.Object && k > 1 {
				out = append(out, v)
			}
		}
	}
	return out
}

func keys() []string {
	return append(pr.Keys([]string{"a", "b", "a.b"}, 2), "a.b.a", "a.a.a", "b.b.b.b", ".a", "a..b.", "zz", `zz\.y.x`)
}

func main() {
	mc.Main(&mc.Check{
		ID: "C15", Level: "exploration",
		Rule: "every event tree to a size x every option combination (copy_from x target_field over all short paths, constant values of every kind and shape, both ignore flags), then every stored value and every source field overwritten in place (each reachable node) and through the event's operations, and the same processor run again; every unusual name as source, target and in values next to those it might be confused with; distinct by (event before, event after, class)",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"event_nodes": pr.Pick(tier, 5, 6), "configured_value_nodes": pr.Pick(tier, 4, 5), "key_depth": "2 (all), 4 (some)", "large_value_depth_and_width": pr.Pick(tier, 60, 300)}
		},
		Assumptions: []string{"set with neither a value nor copy_from is unspecified", "configured integers carry no signedness", "a target or source key '.' names the whole event"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			ks := keys()
			ts := trees(pr.Pick(tier, 5, 6))
			small := trees(pr.Pick(tier, 4, 5))
			// Copies: one unit per (copy_from, target).
			for _, from := range append([]string{"."}, ks...) {
				for _, to := range append([]string{".", ""}, ks...) {
					from, to := from, to
					if to == "" {
						continue // no target at all: what a copy without target means is open
					}
					if !yield("copy_from="+from+" target="+to, func(t *mc.T) {
						o := opt{copyFrom: from, target: to}
						p := pr.New(t, "set", o.opts())
						for _, tree := range ts {
							run(t, p, o, tree, tree.Size() <= 5)
						}
						again(t, p, o, small)
						for f := 1; f < 4; f++ {
							o := opt{copyFrom: from, target: to, ignoreMissing: f&1 != 0, ignoreFailure: f&2 != 0}
							p := pr.New(t, "set", o.opts())
							for _, tree := range small {
								run(t, p, o, tree, false)
							}
						}
						t.Sample(o.String)
					}) {
						return
					}
				}
			}
			// Constants.
			for _, v := range values(pr.Pick(tier, 4, 5)) {
				v := v
				if !yield("value="+v.Canon(), func(t *mc.T) { constant(t, v, ks) }) {
					return
				}
			}
			// A value wins over copy_from.
			if !yield("value and copy_from", func(t *mc.T) {
				for _, v := range []*model.V{s(""), i(0), model.B(false), a(), a(n()), kv("q", s("r"))} {
					for _, from := range ks {
						o := opt{value: v, copyFrom: from, target: "b"}
						p := pr.New(t, "set", o.opts())
						for _, tree := range small {
							run(t, p, o, tree, false)
						}
					}
				}
			}) {
				return
			}
			// Many events through one processor.
			for _, count := range model.Runs(pr.Pick(tier, 3000, 70000)) {
				for _, o := range []opt{{copyFrom: "a", target: "b"}, {copyFrom: "a.b", target: "b.a"}, {copyFrom: "zz", target: "a", ignoreMissing: true}, {value: i(7), target: "a.b"}, {value: s("x"), target: "b"}, {value: a(s("x"), kv("q", s("r"))), target: "b"}, {value: kv("q", a(s("r"))), target: "a", ignoreFailure: true}} {
					o, count := o, count
					if !yield(fmt.Sprint(count, " events: ", o), func(t *mc.T) {
						p := pr.New(t, "set", o.opts())
						for k := 0; k < count; k++ {
							run(t, p, o, small[(k+k/len(small))%len(small)], k%3 == 0)
						}
					}) {
						return
					}
				}
			}
			// Large values.
			for _, d := range model.Sizes(pr.Pick(tier, 60, 300), 3000) {
				d := d
				if !yield(fmt.Sprint("large ", d), func(t *mc.T) {
					for _, v := range large(d) {
						for _, to := range []string{"b", "b.c", "a.b", "a"} {
							o := opt{copyFrom: "a", target: to}
							run(t, pr.New(t, "set", o.opts()), o, kv("a", v, "z", i(1)), true)
							o = opt{value: v, target: to}
							run(t, pr.New(t, "set", o.opts()), o, kv("a", i(1)), true)
						}
					}
				}) {
					return
				}
			}
			for _, name := range model.OddNames() {
				name := name
				if !yield(fmt.Sprintf("name %q", pr.Clip2(name, 40)), func(t *mc.T) { odd(t, name) }) {
					return
				}
			}
			yield("values go-ucfg does not keep", lossyValues)
		},
	})
}

// large lists values nested d deep and d wide.
func large(d int) []*model.V {
	o, arr, mixed := s("x"), s("x"), s("x")
	wide, list := kv(), a()
	for k := 0; k < d; k++ {
		o = kv("k", o, "l", i(int64(k)))
		arr = a(i(int64(k)), arr)
		if k%2 == 0 {
			mixed = a(mixed)
		} else {
			mixed = kv("m", mixed)
		}
		wide.O[fmt.Sprintf("w%d", k)] = i(int64(k))
		list.A = append(list.A, kv("e", i(int64(k))))
	}
	str := make([]byte, d*37)
	for k := range str {
		str[k] = byte('a' + k%26)
	}
	return []*model.V{o, arr, mixed, wide, list, s(string(str))}
}

func constant(t *mc.T, v *model.V, ks []string) {
	base := []*model.V{kv(), kv("a", i(1)), kv("a", kv("b", i(1), "a", a(i(2)))), kv("a", n(), "b", kv("a", kv())), kv("a.b", s("y"), "a", a(kv("b", i(1))))}
	for _, to := range append([]string{"."}, ks...) {
		o := opt{value: v, target: to}
		p := pr.New(t, "set", o.opts())
		for _, tree := range base {
			if lossy(v) {
				continue
			}
			run(t, p, o, tree, true)
		}
		if !lossy(v) {
			again(t, p, o, base)
		}
	}
	t.Sample(func() string { return "value " + pr.Clip(v.Canon()) })
}

// lossyValues: known finding. go-ucfg reads an empty object as nothing, an
// object keyed 0..n-1 as an array and drops timestamps.
func lossyValues(t *mc.T) {
	ts := time.Date(2001, 2, 3, 4, 5, 6, 7, time.UTC)
	type c struct {
		id    string
		value interface{}
		want  *model.V
		// what the tree stores today (nil: nothing)
		now *model.V
	}
	for _, x := range []c{
		{"value-empty-object", map[string]interface{}{}, kv(), nil},
		{"value-empty-object", map[string]interface{}{"a": map[string]interface{}{}}, kv("a", kv()), kv("a", n())},
		{"value-empty-object", []interface{}{map[string]interface{}{}}, a(kv()), a(n())},
		{"value-numeric-names", map[string]interface{}{"0": "x"}, kv("0", s("x")), a(s("x"))},
		{"value-numeric-names", map[string]interface{}{"a": map[string]interface{}{"0": "x", "1": "y"}}, kv("a", kv("0", s("x"), "1", s("y"))), kv("a", a(s("x"), s("y")))},
		{"value-numeric-names", map[string]interface{}{"1": "x"}, kv("1", s("x")), a(n(), s("x"))},
		{"value-numeric-names", map[string]interface{}{"0x1": "x", "0": "y"}, kv("0x1", s("x"), "0", s("y")), a(s("y"), s("x"))},
		{"value-timestamp", ts, model.T(ts.UnixNano()), nil},
		{"value-timestamp", []interface{}{ts}, a(model.T(ts.UnixNano())), a(n())},
	} {
		x := x
		t.At(func() string { return fmt.Sprintf("set value=%v target_field=t", x.value) })
		p := pr.New(t, "set", pr.Opts{"target_field": "t", "value": x.value})
		r := p.Run(t, event.New)
		t.Eval(1)
		if r.Err != nil {
			t.Fail("failed: %v", r.Err)
		}
		got := r.After.Get("t")
		if model.Match(x.want, got) {
			continue
		}
		if !model.Match(x.now, got) {
			t.Fail("stored %s, want %s", model.From(got).Canon(), x.want.Canon())
		}
		if !t.KnownFinding(x.id) {
			t.Fail("stored %s, want %s", model.From(got).Canon(), x.want.Canon())
		}
	}
	// Negative and overflowing numbers cannot be list indexes: refused today.
	for _, name := range []string{"-1", "-0x10", "9223372036854775807", "-9223372036854775808"} {
		for _, v := range []*model.V{kv(name, s("x")), kv("a", a(kv(name, s("x"))))} {
			v := v
			t.At(func() string { return fmt.Sprintf("set value=%s target_field=t", v.Canon()) })
			t.Eval(1)
			p, err := pr.TryNew("set", pr.Opts{"target_field": "t", "value": pr.ToGo(v)})
			if err != nil {
				if !t.KnownFinding("value-numeric-names") {
					t.Fail("refused: %v", err)
				}
				continue
			}
			if r := p.Run(t, event.New); r.Err != nil || !model.Match(v, r.After.Get("t")) {
				t.Fail("error %v, stored %s", r.Err, model.From(r.After.Get("t")).Canon())
			}
		}
	}
}

// odd uses an unusual name as source, as target and in values, next to names it
// might be confused with.
func odd(t *mc.T, name string) {
	other := func(k int) *model.V { return i(int64(k)) }
	model.Twins(name, other, func(key, twin string, path, twinPath []string, tree *model.V) {
		for _, o := range []opt{{copyFrom: key, target: twin}, {copyFrom: twin, target: key}} {
			run(t, pr.New(t, "set", o.opts()), o, tree, true)
		}
	})
	model.OddKeys(name, func(key string, path []string, mk func(*model.V) *model.V) {
		for _, leaf := range []*model.V{nil, n(), s("x"), a(s("x")), kv(name, i(1))} {
			tree := mk(model.OddTree(name, leaf, other))
			tree.O["sRc"] = kv(name, a(i(1)))
			for _, o := range []opt{
				{copyFrom: key, target: "out"}, {copyFrom: key, target: "out.in", ignoreMissing: true}, {copyFrom: "sRc", target: key}, {value: i(5), target: key}, {value: s(name), target: key}, {copyFrom: key, target: key},
				{copyFrom: model.Key("sRc", name), target: key},
			} {
				run(t, pr.New(t, "set", o.opts()), o, tree, true)
			}
		}
	})
	for _, v := range []*model.V{s(name), a(s(name)), kv("m", s(name)), kv("m", a(kv("m", s(name))))} {
		o := opt{value: v, target: "f"}
		run(t, pr.New(t, "set", o.opts()), o, kv("f", i(1)), true)
	}
	for _, v := range []*model.V{kv(name, i(1)), kv("m", kv(name, s(name)))} {
		if !lossy(v) {
			o := opt{value: v, target: "f"}
			run(t, pr.New(t, "set", o.opts()), o, kv("f", i(1)), true)
		}
	}
}
