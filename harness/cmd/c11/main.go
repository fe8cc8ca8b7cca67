// C11: an event's result never depends on earlier events or other pipelines.
package main

import (
	"fmt"
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/mc"
	"verif/model"
	"verif/pr"
)

var (
	i, s, a, n = model.I, model.S, model.A, model.N
	kv         = model.KV
)

var arr = a(s("p"), kv("q", a(s("r"))), i(-1))

var obj = kv("m", kv("n", a(s("x"))), "k", s("v"))

// menu of processors.
var menu = []pr.P{
	{Typ: "set", Target: "t", Val: s("Const")},
	{Typ: "set", Target: "t", Val: arr},
	{Typ: "set", Target: "t", Val: obj},
	{Typ: "set", Target: "a.t", Val: obj},
	{Typ: "set", Field: "a", Target: "t"},
	{Typ: "set", Field: "t", Target: "a", IgnMiss: true},
	{Typ: "set", Field: "a", Target: "a.b", IgnErr: true},
	{Typ: "append", Field: "t", Str: "X"},
	{Typ: "append", Field: "t", Str: "Y", Dup: true},
	{Typ: "append", Field: "a", Str: "X", OnFailure: []pr.P{{Typ: "set", Target: "err", Val: arr}}},
	{Typ: "lowercase", Field: "a"},
	{Typ: "uppercase", Field: "t", Target: "u", IgnMiss: true},
	{Typ: "remove", Fields: []string{"a"}},
	{Typ: "remove", Fields: []string{"t.k", "z"}, IgnMiss: true},
	{Typ: "vcond", Field: "z", Str: "drop"},
	{Typ: "vcond", Field: "z", Str: "cancel"},
	{Typ: "vcond", Field: "z", Str: "fail", OnFailure: []pr.P{{Typ: "append", Field: "e", Str: "h", Dup: true}}},
}

var handlers = [][]pr.P{nil, {{Typ: "set", Target: "t", Val: arr}, {Typ: "append", Field: "t", Str: "H"}}}

var events = []*model.V{
	kv(),
	kv("a", s("Ab")),
	kv("a", kv("k", a(s("Q"))), "t", a(s("X"))),
	kv("a", a(s("W"), kv("b", i(1))), "t", s("Tt")),
	kv("t", kv("k", i(1)), "z", i(1)),
	kv("a", i(5), "z", n(), "t", n()),
}

// other is a pipeline of the same processor types with other options.
var other = pr.Def{Procs: []pr.P{
	{Typ: "set", Target: "o", Val: a(s("other"))},
	{Typ: "append", Field: "a", Str: "other", IgnMiss: false, OnFailure: []pr.P{{Typ: "set", Target: "t", Val: s("o")}}},
	{Typ: "set", Field: "o", Target: "t"},
	{Typ: "uppercase", Field: "missing", IgnMiss: true},
	{Typ: "lowercase", Field: "missing", IgnMiss: true},
	{Typ: "remove", Fields: []string{"zz"}, IgnMiss: true},
	{Typ: "vcond", Field: "zz", Str: "fail"},
}}

type world struct {
	t       *mc.T
	d       pr.Def
	conf    *pipeline.Config
	p, q, r *pipeline.Pipeline
	results []result
	log     []string
}

type result struct {
	e    *event.Event
	root *model.V // nil once changed
}

func (w *world) build(c *pipeline.Config) *pipeline.Pipeline {
	p, err := pipeline.New(c)
	if err != nil {
		w.t.Fail("New: %v", err)
	}
	return p
}

func newWorld(t *mc.T, d pr.Def) *world {
	w := &world{t: t, d: d, conf: d.Conf("p")}
	w.p = w.build(w.conf)
	return w
}

func (w *world) process(d pr.Def, p *pipeline.Pipeline, e *event.Event, tree *model.V) {
	w.t.Trans(1)
	want := d.Ref(tree)
	out, err := p.Process(e)
	switch {
	case (err != nil) != want.Failed:
		w.t.Fail("error %v, want failure: %v", err, want.Failed)
	case (out == nil) != (want.Root == nil):
		w.t.Fail("event returned: %v, want %s", out != nil, want.Canon())
	}
	if out != nil {
		if got := model.Snapshot(out); !model.Equal(pr.Signed(got), pr.Signed(want.Root)) {
			w.t.Fail("result %s, want %s", got.Canon(), want.Root.Canon())
		}
		w.results = append(w.results, result{out, model.Snapshot(out)})
	}
	if err != nil {
		// The text of the error too must be that of a fresh pipeline.
		key := d.String() + "|" + tree.Canon()
		if prev, ok := errTexts[key]; !ok {
			errTexts[key] = err.Error()
		} else if prev != err.Error() {
			w.t.Fail("error %q, the first time it was %q", err, prev)
		}
	}
}

var errTexts = map[string]string{}

func (w *world) checkResults() {
	for k, r := range w.results {
		if r.root != nil && !model.MatchEvent(r.root, r.e) {
			w.t.Fail("result %d, returned earlier, is now %s, was %s", k, model.Snapshot(r.e).Canon(), r.root.Canon())
		}
	}
}

func (w *world) scramble(r *result, api bool) {
	if r.root == nil {
		return
	}
	if api {
		for _, k := range []string{"t", "a", "t.m.n", "t.k", "a.t.m", "err", "a.b.k"} {
			if r.e.Get(k) != nil {
				if _, err := r.e.Put(k+".added", event.String("changed")); err != nil {
					r.e.Put(k, event.String("changed"))
				}
			}
		}
	} else {
		pr.Scramble(r.e.Get("."))
	}
	r.root = nil
}

func scrambleConf(cs []pipeline.ProcessorConfig) {
	for k, c := range cs {
		for name, o := range c {
			scrambleConf(o.OnFailure)
			scrambleMap(o.Config)
			o.ID, o.If = "changed", "changed"
			for j := range o.OnFailure {
				o.OnFailure[j] = pipeline.ProcessorConfig{"nothing": nil}
			}
			o.OnFailure = nil
			o.Config["ignore_missing"], o.Config["ignore_failure"] = true, true
			c[name] = &pipeline.ProcessorOptionConfig{}
		}
		cs[k] = pipeline.ProcessorConfig{"nothing": nil}
	}
}

func scrambleMap(m map[string]interface{}) {
	for k, v := range m {
		m[k] = scrambleAny(v)
	}
}

func scrambleAny(v interface{}) interface{} {
	switch v := v.(type) {
	case map[string]interface{}:
		scrambleMap(v)
		v["added"] = "changed"
	case []interface{}:
		for k := range v {
			v[k] = scrambleAny(v[k])
		}
	}
	return "changed"
}

// op of a history.
type op struct {
	name string
	run  func(w *world)
}

func ops() []op {
	var out []op
	add := func(name string, f func(w *world)) { out = append(out, op{name, f}) }
	for k, e := range events {
		e := e
		add(fmt.Sprintf("process event %d", k), func(w *world) { w.process(w.d, w.p, model.Build(e), e) })
	}
	for _, k := range []int{1, 3, 4} {
		e := events[k]
		add(fmt.Sprintf("process event %d by a second pipeline from the same definition", k), func(w *world) {
			if w.q == nil {
				if w.conf == nil {
					return
				}
				w.q = w.build(w.conf)
			}
			w.process(w.d, w.q, model.Build(e), e)
		})
	}
	add("process event 3 by another pipeline", func(w *world) {
		if w.r == nil {
			w.r = w.build(other.Conf("p"))
		}
		w.process(other, w.r, model.Build(events[3]), events[3])
	})
	add("process the last result again", func(w *world) {
		if len(w.results) == 0 || w.results[len(w.results)-1].root == nil {
			return
		}
		last := w.results[len(w.results)-1]
		w.results = w.results[:len(w.results)-1]
		w.process(w.d, w.p, last.e, last.root)
	})
	add("change the last result in place", func(w *world) {
		if len(w.results) > 0 {
			w.scramble(&w.results[len(w.results)-1], false)
		}
	})
	add("change the fields of the last result a little, in place", func(w *world) {
		if len(w.results) == 0 || w.results[len(w.results)-1].root == nil {
			return
		}
		r := &w.results[len(w.results)-1]
		if !model.Tweak(r.e, r.root, 1) {
			w.t.Fail("two fields of a returned event share a value: after changing each field in place it is %s", model.Snapshot(r.e).Canon())
		}
	})
	add("change all results through put", func(w *world) {
		for k := range w.results {
			w.scramble(&w.results[k], true)
		}
	})
	add("change the definition", func(w *world) {
		if w.conf != nil {
			scrambleConf(w.conf.Processors)
			scrambleConf(w.conf.OnFailure)
			w.conf.ID, w.conf.Processors, w.conf.OnFailure = "changed", nil, nil
			w.conf = nil
		}
	})
	return out
}

func history(t *mc.T, d pr.Def, all []op, idx []int) {
	w := newWorld(t, d)
	names := 0
	t.At(func() string {
		s := d.String() + ": "
		for _, k := range idx[:names] {
			s += all[k].name + "; "
		}
		return s
	})
	for _, k := range idx {
		names++
		all[k].run(w)
		w.checkResults()
		w.state(t)
	}
	t.Trace(1)
	t.Eval(1)
}

// state records the state of the world: the definition, what is alive and what
// the returned events hold.
func (w *world) state(t *mc.T) {
	var b strings.Builder
	b.WriteString(w.d.String())
	fmt.Fprint(&b, w.conf != nil, w.q != nil, w.r != nil)
	for _, r := range w.results {
		if r.root == nil {
			b.WriteString("|changed")
		} else {
			b.WriteString("|" + r.root.Canon())
		}
	}
	t.State(b.String())
}

// explore runs every history of a length that ends in processing.
func explore(t *mc.T, d pr.Def, depth int) {
	all := ops()
	idx := make([]int, depth)
	for {
		// Only histories that end with a processing step.
		if idx[depth-1] < len(events)+4 {
			history(t, d, all, idx)
		}
		k := depth - 1
		for ; k >= 0; k-- {
			idx[k]++
			if idx[k] < len(all) {
				break
			}
			idx[k] = 0
		}
		if k < 0 {
			break
		}
	}
	for _, e := range events {
		t.Outcome(d.String() + e.Canon() + d.Ref(e).Canon())
	}
	t.Sample(func() string { return d.String() })
}

// long runs many events through one pipeline in every rotation.
func long(t *mc.T, d pr.Def, count int) {
	for rot := range events {
		w := newWorld(t, d)
		for k := 0; k < count; k++ {
			k := k
			e := events[(k+rot)%len(events)]
			if k%7 == 3 {
				e = events[rot]
			}
			t.At(func() string { return fmt.Sprintf("%v: event number %d of a run (%s)", d, k, e.Canon()) })
			w.process(d, w.p, model.Build(e), e)
			if len(w.results) > 4 {
				w.checkResults()
				w.scramble(&w.results[1], k%2 == 0)
				w.results = w.results[2:]
			}
		}
		t.Eval(1)
		t.Trace(1)
	}
}

// same runs one event many times through one pipeline, then every other one.
func same(t *mc.T, d pr.Def, count int) {
	for x, e := range events {
		w := newWorld(t, d)
		for k := 0; k < count; k++ {
			k := k
			t.At(func() string { return fmt.Sprintf("%v: event %s for the %d. time in a row", d, e.Canon(), k+1) })
			w.process(d, w.p, model.Build(e), e)
			w.results = nil
		}
		for y, e2 := range events {
			t.At(func() string { return fmt.Sprintf("%v: event %d times %s, then %s", d, count, e.Canon(), e2.Canon()) })
			if x != y {
				w.process(d, w.p, model.Build(e2), e2)
			}
		}
		t.Eval(1)
		t.Trace(1)
	}
}

// nested runs an event through a pipeline one of whose processors runs another
// event through a pipeline, another one or the same.
func nested(t *mc.T, p pr.P, place int) {
	for _, act := range []string{"", "fail"} {
		call := pr.P{Typ: "vcall", Str: act}
		if act == "fail" {
			call.OnFailure = []pr.P{{Typ: "append", Field: "h", Str: "H"}}
		}
		var d pr.Def
		switch place {
		case 0:
			d.Procs = []pr.P{call, p}
		case 1:
			d.Procs = []pr.P{p, call}
		case 2:
			p.OnFailure = append([]pr.P{call}, p.OnFailure...)
			d.Procs = []pr.P{p, {Typ: "set", Target: "end", Val: s("reached")}}
		case 3:
			d.Procs, d.OnFailure = []pr.P{p}, []pr.P{call, {Typ: "set", Target: "end", Val: s("reached")}}
		}
		inner := []pr.Def{d}
		for _, q := range menu {
			inner = append(inner, pr.Def{Procs: []pr.P{q}, OnFailure: handlers[len(inner)%2]})
		}
		for k, in := range inner {
			w := newWorld(t, d)
			ip := w.p
			if k > 0 {
				ip = w.build(in.Conf("p"))
			}
			for oi, oe := range events {
				for ii, ie := range events {
					oi, ii, oe, ie, in := oi, ii, oe, ie, in
					t.At(func() string {
						return fmt.Sprintf("%v: event %d, while its vcall processor runs event %d through %v (the same pipeline: %v)", d, oi, ii, in, k == 0)
					})
					busy := false
					pr.Hook = func() {
						if !busy {
							busy = true
							w.process(in, ip, model.Build(ie), ie)
							busy = false
						}
					}
					w.process(d, w.p, model.Build(oe), oe)
					w.checkResults()
					w.results = nil
					t.Eval(1)
					t.Trace(1)
				}
			}
		}
	}
	pr.Hook = nil
}

func main() {
	mc.Main(&mc.Check{
		ID: "C11", Level: "model_checking",
		Rule: "every definition of 1-3 processors from a menu (with and without handlers) x every history to a length over {process one of 6 events; the same by a second pipeline of the same definition; by another pipeline of the same processors; process the last result again; change the last result in place; change all results through put; change the definition object}; each result compared with a reference interpreter, earlier results compared with what they were; long runs; pipelines run from within a processor of another or the same pipeline; distinct by (definition, event, result)",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"operations": len(ops()), "history_one_processor": pr.Pick(tier, 4, 5), "history_two_processors": pr.Pick(tier, 3, 4), "history_three_processors": pr.Pick(tier, 0, 2), "menu": len(menu), "long_run_events": pr.Pick(tier, 300, 70000)}
		},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			unit := func(d pr.Def, depth int) bool {
				return yield(fmt.Sprint(depth, " ", d), func(t *mc.T) { explore(t, d, depth) })
			}
			for h, hs := range handlers {
				for _, p := range menu {
					d := pr.Def{Procs: []pr.P{p}, OnFailure: hs}
					for depth := 1; depth <= pr.Pick(tier, 4, 5); depth++ {
						if depth == 5 && h == 1 {
							continue
						}
						if !unit(d, depth) {
							return
						}
					}
					if !yield(fmt.Sprint("long ", d), func(t *mc.T) { long(t, d, pr.Pick(tier, 300, 20000)) }) {
						return
					}
					for _, n := range model.Runs(pr.Pick(tier, 3000, 40000)) {
						n := n
						if !yield(fmt.Sprint("same ", n, d), func(t *mc.T) { same(t, d, n) }) {
							return
						}
					}
				}
			}
			for _, n := range model.SourceInts(200000) {
				if n < pr.Pick(tier, 300, 20000) {
					continue
				}
				for _, p := range menu {
					d, n := pr.Def{Procs: []pr.P{p}}, n
					if !yield(fmt.Sprint("long ", n, d), func(t *mc.T) { long(t, d, n+2) }) {
						return
					}
				}
			}
			for _, p := range menu {
				for place := 0; place < 4; place++ {
					p, place := p, place
					if !yield(fmt.Sprint("nested ", place, " ", p), func(t *mc.T) { nested(t, p, place) }) {
						return
					}
				}
			}
			if tier == "thorough" && !yield("very long", func(t *mc.T) {
				long(t, pr.Def{Procs: []pr.P{menu[1], menu[7], menu[9]}, OnFailure: handlers[1]}, 70000)
			}) {
				return
			}
			for _, p := range menu {
				for _, q := range menu {
					for _, hs := range handlers {
						d := pr.Def{Procs: []pr.P{p, q}, OnFailure: hs}
						for depth := 2; depth <= pr.Pick(tier, 3, 4); depth++ {
							if depth > 3 && hs != nil || depth == 3 && tier != "thorough" && hs != nil {
								continue
							}
							if !unit(d, depth) {
								return
							}
						}
						if !yield(fmt.Sprint("long ", d), func(t *mc.T) { long(t, d, pr.Pick(tier, 40, 300)) }) {
							return
						}
					}
				}
			}
			for _, p := range menu {
				for _, q := range menu {
					for _, r := range menu {
						d := pr.Def{Procs: []pr.P{p, q, r}}
						if tier == "thorough" {
							if !unit(d, 2) {
								return
							}
						} else if !yield(fmt.Sprint("long ", d), func(t *mc.T) { long(t, d, 12) }) {
							return
						}
					}
				}
			}
		},
	})
}
