// C02: a rejected event update changes nothing, and nothing else is rejected.
package main

import (
	"fmt"
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/event"

	"verif/mc"
	"verif/model"
	. "verif/store"
)

// A leaf of a tree: what the model sees and what is built.
type leaf struct {
	name string
	v    *model.V
	real func() *event.Value
}

type tree struct {
	leaf *leaf
	// object
	names []string
	kids  []tree
	arr   bool
}

func (t tree) model() *model.V {
	if t.leaf != nil {
		return t.leaf.v.Clone()
	}
	if t.arr {
		a := model.A()
		for _, k := range t.kids {
			a.A = append(a.A, k.model())
		}
		return a
	}
	o := model.O(nil)
	for i, k := range t.kids {
		o.O[t.names[i]] = k.model()
	}
	return o
}

func (t tree) real() *event.Value {
	if t.leaf != nil {
		return t.leaf.real()
	}
	if t.arr {
		var a []*event.Value
		for _, k := range t.kids {
			a = append(a, k.real())
		}
		return event.Array(a...)
	}
	m := map[string]*event.Value{}
	for i, k := range t.kids {
		m[t.names[i]] = k.real()
	}
	return event.Object(m)
}

func (t tree) String() string {
	if t.leaf != nil {
		return t.leaf.name
	}
	var p []string
	for i, k := range t.kids {
		if t.arr {
			p = append(p, k.String())
		} else {
			p = append(p, t.names[i]+":"+k.String())
		}
	}
	if t.arr {
		return "[" + strings.Join(p, ",") + "]"
	}
	return "{" + strings.Join(p, ",") + "}"
}

// trees lists all trees with exactly n leaves-or-containers.
func trees(n int, leaves []leaf, memo map[int][]tree) []tree {
	if r, ok := memo[n]; ok {
		return r
	}
	var out []tree
	if n == 1 {
		for i := range leaves {
			out = append(out, tree{leaf: &leaves[i]})
		}
	} else {
		for _, k := range trees(n-1, leaves, memo) {
			out = append(out, tree{names: []string{"a"}, kids: []tree{k}}, tree{names: []string{"b"}, kids: []tree{k}})
			if n <= 3 {
				out = append(out, tree{arr: true, kids: []tree{k}})
			}
		}
		for l := 1; l < n-1; l++ {
			for _, x := range trees(l, leaves, memo) {
				for _, y := range trees(n-1-l, leaves, memo) {
					out = append(out, tree{names: []string{"a", "b"}, kids: []tree{x, y}})
				}
			}
		}
	}
	memo[n] = out
	return out
}

func main() {
	nilV := leaf{"nil", model.NilV(), func() *event.Value { return nil }}
	leaves := []leaf{
		{"int", model.I(1), func() *event.Value { return event.Integer(1) }},
		{"null", model.N(), func() *event.Value { return event.NullValue }},
		{"{}", model.O(nil), func() *event.Value { return event.Object(map[string]*event.Value{}) }},
		{"Object(nil)", model.O(nil), func() *event.Value { return event.Object(nil) }},
		nilV,
		{"[]", model.A(), func() *event.Value { return event.Array() }},
	}
	more := append([]leaf{}, leaves...)
	for _, v := range model.Scalars() {
		v := v
		more = append(more, leaf{v.Canon(), v, v.Real})
	}
	more = append(more,
		leaf{"[nil]", model.A(model.NilV()), func() *event.Value { return event.Array(nil) }},
		leaf{"Array{}", model.A(), func() *event.Value { return event.Array([]*event.Value{}...) }},
		leaf{"[{b:1}]", model.A(model.KV("b", model.I(1))), func() *event.Value {
			return event.Array(event.Object(map[string]*event.Value{"b": event.Integer(1)}))
		}},
	)
	keys := []string{"a", "b", "a.a", "a.b", "b.a", "a.a.a", "a.a.b", "a.b.a", "a.a.a.a", "a.b.b.a", "a.a.a.a.a.a", "", ".", "..", "c", "c.a", "a.c", "a.c.d", "a.b.c.d", "a.a.a.c.d"}
	vals := []*model.V{model.I(7), model.N(), model.O(nil), model.KV("b", model.A()), model.NilV(), model.A(model.I(1))}
	ops := All(keys, vals)
	for _, k := range keys {
		ops = append(ops, New(Get, k, nil))
	}
	probes := Probes(keys)

	// build stores the members of a tree's root through the API.
	build := func(tr tree) *event.Event {
		e := event.New()
		for i, n := range tr.names {
			if _, err := e.Put(n, tr.kids[i].real()); err != nil {
				panic(err)
			}
		}
		return e
	}
	run := func(t *mc.T, tr tree, seq ...Op) {
		t.At(Ops("event "+tr.String(), seq...))
		e := build(tr)
		m := &model.Tree{Root: tr.model()}
		for _, o := range seq {
			before := m.Root.Canon()
			class := Step(t, e, m, o)
			if !model.MatchEvent(m.Root, e) {
				if class != model.OK {
					t.Fail("rejected %v changed the event from %s to %s", o, before, model.Snapshot(e).Canon())
				}
				t.Fail("after %v the event is %s, want %s", o, model.Snapshot(e).Canon(), m.Root.Canon())
			}
		}
		Compare(t, e, m, probes)
		t.Trace(1)
		t.State(m.Root.Canon())
	}

	mc.Main(&mc.Check{
		ID: "C02", Level: "model_checking",
		Rule: "every event tree up to the stated size (members of every kind incl. nil pointers, nil containers and nulls) x every operation over every key (x a second operation), error class and whole event compared with the reference",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"tree_nodes": size(tier), "leaves": len(leaves), "operations": len(ops), "single_value_leaves": len(more)}
		},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			// Every kind of value at and above the target, all op pairs.
			for i := range more {
				l := tree{leaf: &more[i]}
				for _, tr := range []tree{
					{names: []string{"a"}, kids: []tree{l}},
					{names: []string{"a"}, kids: []tree{{names: []string{"b"}, kids: []tree{l}}}},
					{names: []string{"b", "a"}, kids: []tree{l, {names: []string{"a"}, kids: []tree{l}}}},
				} {
					tr := tr
					if !yield("leaf "+tr.String(), func(t *mc.T) {
						for _, o1 := range ops {
							run(t, tr, o1)
							for _, o2 := range ops {
								if o1.K != Get && o2.K != Get && o1.K != o2.K {
									run(t, tr, o1, o2)
								}
							}
						}
					}) {
						return
					}
				}
			}
			// A rejected operation in the middle of a deep chain.
			for d := 1; d <= 40; d++ {
				d := d
				if !yield(fmt.Sprintf("blocked at depth %d", d), func(t *mc.T) {
					for _, l := range more {
						l := l
						if l.v.K == model.Object || l.v.K == model.Nil {
							continue
						}
						tr := tree{leaf: &l}
						for i := 1; i < d; i++ {
							tr = tree{names: []string{"a", "x"}, kids: []tree{tr, {leaf: &leaves[0]}}}
						}
						tr = tree{names: []string{"a"}, kids: []tree{tr}}
						chain := strings.TrimSuffix(strings.Repeat("a.", d), ".")
						for below := 1; below <= 4; below++ {
							k := chain + strings.Repeat(".n", below)
							run(t, tr, New(Put, k, model.I(1)))
							run(t, tr, New(TryPut, k, model.I(1)), New(Put, chain+".n", model.O(nil)), New(Delete, k, nil))
						}
						run(t, tr, New(TryPut, chain, model.I(1)))
					}
				}) {
					return
				}
			}
			memo := map[int][]tree{}
			for n := 1; n <= size(tier); n++ {
				for i, tr := range trees(n, leaves, memo) {
					if tr.leaf != nil || tr.arr {
						continue
					}
					tr := tr
					_ = i
					if !yield("tree "+tr.String(), func(t *mc.T) {
						for _, o := range ops {
							run(t, tr, o)
						}
						t.Sample(func() string { return "event " + tr.String() + " x all operations" })
					}) {
						return
					}
				}
			}
		},
	})
}

func size(tier string) int {
	if tier == "thorough" {
		return 7
	}
	return 5
}
