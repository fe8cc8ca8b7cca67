//go:build verifinstr

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/prometheus/client_golang/prometheus"
	"gopkg.in/yaml.v3"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"

	"verif/model"
	"verif/ph"
	"verif/pr"
)

var (
	i, s, b, a, n, f = model.I, model.S, model.B, model.A, model.N, model.F
	kv               = model.KV
)

// shared is what the threads of one run share.
type shared struct {
	p  *pipeline.Pipeline
	cs []prometheus.Collector

	slots []*slot // C29
}

// res is the result of a job; show is called when all threads have ended.
type res struct {
	show     func() string
	wreck    func() // overwrites the result in place
	counters []ph.Counter
}

type job struct {
	name   string
	want   string // what the reference model says, if anything
	run    func(sh *shared) res
	reader bool
}

// between judges what a reader of the counters saw.
func (j job) between(got, final []ph.Counter) string {
	if len(got) == 0 || len(got)%len(final) != 0 {
		return fmt.Sprintf("read %d counters of %d", len(got), len(final))
	}
	last := make([]float64, len(final))
	for k, c := range got {
		m := k % len(final)
		if c.Value < last[m] || c.Value > final[m].Value {
			return fmt.Sprintf("read %v from counter %s of %s after %v and before its final value %v", c.Value, c.Name, c.ID, last[m], final[m].Value)
		}
		last[m] = c.Value
	}
	return ""
}

type scen struct {
	name  string
	setup func() *shared
	jobs  []job
	least int // number of preemptions
	same  bool
	final func(sh *shared) string // judges what is left in the end
	clean func(sh *shared)
}

// ---- pipelines

type P = pr.P

func fail(field string, onf ...P) P {
	return P{Typ: "vcond", Field: field, Str: "fail", OnFailure: onf}
}

func set(to string, v *model.V) P      { return P{Typ: "set", Target: to, Val: v} }
func cp(from, to string) P             { return P{Typ: "set", Field: from, Target: to} }
func app(field, v string) P            { return P{Typ: "append", Field: field, Str: v} }
func low(field, to string) P           { return P{Typ: "lowercase", Field: field, Target: to} }
func up(field, to string) P            { return P{Typ: "uppercase", Field: field, Target: to} }
func rm(ign bool, fields ...string) P  { return P{Typ: "remove", Fields: fields, IgnMiss: ign} }
func cond(field, act string, h ...P) P { return P{Typ: "vcond", Field: field, Str: act, OnFailure: h} }
func ign(p P) P                        { p.IgnErr = true; return p }
func miss(p P) P                       { p.IgnMiss = true; return p }
func def(ps ...P) pr.Def               { return pr.Def{Procs: ps} }
func with(d pr.Def, h ...P) pr.Def     { d.OnFailure = h; return d }
func named(name string, d pr.Def) ndef { return ndef{name, d, nil} }
func (d ndef) on(evs ...*model.V) ndef { d.evs = evs; return d }

type ndef struct {
	name string
	d    pr.Def
	evs  []*model.V
}

// Two distinct events that take the same ways, and others that do not.
var (
	evA = kv("m", s("Alpha"), "l", a(s("x")), "o", kv("k", s("V")))
	evB = kv("m", s("Beta"), "l", a(s("y"), i(2)), "o", kv("k", s("W")))
	evX = kv("m", s("Xi"), "x", b(true), "o", kv("k", kv("k", i(1))))
	evM = kv("o", s("scalar"))
)

func defs() []ndef {
	obj := kv("p", a(b(true), kv("q", s("v"))), "n", f(3.5))
	return []ndef{
		named("set value", def(set("t", obj), app("t.p", "more"), set("t.n", s("4")))).on(evA, evB, evM),
		named("set list", def(set("tags", a(s("a"), s("b"))), app("tags", "c"), app("tags", "a"))).on(evA, evB),
		named("copy", def(cp("o", "c.o"), set("c.o.z", s("new")), rm(true, "o.k"))).on(evA, evB, evM),
		named("append", def(app("l", "x"), app("new.tags", "n"), app("m", "y"))).on(evA, evB, evX),
		named("case", def(low("m", "lo"), up("m", ""), miss(up("zz", "bad")))).on(evA, evB, evM),
		named("remove", def(rm(true, "o.k", "x", "m"), rm(false, "l"))).on(evA, evB, evX),
		named("handlers", def(fail("x", set("err", s("x")), low("m", "")), miss(P{Typ: "vcond", Field: "l", Str: "missing"}), app("done", "d"))).on(evA, evX, evM),
		named("global handler", with(def(cp("x", "y"), set("z", f(1.5))), app("errors", "failed"), rm(true, "m"))).on(evA, evX, evM),
		named("drop", def(cond("x", "drop"), low("m", "lo"))).on(evA, evX),
		named("cancel", def(cond("l", "cancel"), set("t", s("not cancelled")))).on(evA, evM),
		named("errors", def(low("m", ""), up("l", "u"))).on(evA, evB, evM),
		named("nested handlers", def(fail("m", fail("o", ign(cond("l", "fail")), set("in", s("inner"))), set("out", s("outer"))))).on(evA, evX, evM),
	}
}

func pipeJob(d ndef, v int) job {
	ev := d.evs[v]
	return job{
		name: fmt.Sprintf("process event %d through the pipeline %s", v, d.name),
		want: d.d.Ref(ev).Canon(),
		run: func(sh *shared) res {
			e := model.Build(ev)
			out, err := sh.p.Process(e)
			return outRes(out, err)
		},
	}
}

func outRes(out *event.Event, err error) res {
	r := res{show: func() string {
		switch {
		case err != nil && out != nil:
			return "both an event and an error"
		case err != nil:
			return "failed"
		case out == nil:
			return "dropped"
		}
		return model.Snapshot(out).Canon()
	}}
	if out != nil {
		r.wreck = func() {
			var keys []string
			for k := range model.Snapshot(out).O {
				keys = append(keys, k)
			}
			for _, k := range keys {
				pr.Scramble(out.Get(model.Escape(k)))
			}
		}
	}
	return r
}

func pipeShared(d pr.Def) func() *shared {
	return func() *shared {
		p, err := pipeline.New(d.Conf("p"))
		if err != nil {
			panic(err)
		}
		return &shared{p: p, cs: p.Metrics()}
	}
}

func reader() job {
	return job{name: "read the counters three times", reader: true, run: func(sh *shared) res {
		var out []ph.Counter
		for k := 0; k < 3; k++ {
			out = append(out, ph.ReadCollectors(sh.cs)...)
		}
		out = append(out, ph.Read(sh.p)...)
		return res{show: func() string { return "" }, counters: out}
	}}
}

// ---- library functions on distinct events

type inner struct {
	Name string `event:"name"`
	N    uint8
}

type rec struct {
	Msg   string `event:"msg"`
	Skip  string `event:"-"`
	Empty string `event:",omitempty"`
	inner
	L []interface{}     `event:"l"`
	M map[string]string `event:"m"`
	P *inner
	F float32
}

type other struct {
	Msg  int64 `event:"msg"`
	More []rec
}

func text(f func() string) res { return res{show: f} }

func texts(w func(p func(string, ...interface{}))) res {
	var l []string
	w(func(f string, args ...interface{}) { l = append(l, fmt.Sprintf(f, args...)) })
	return text(func() string { return strings.Join(l, "\n") })
}

type funcJob struct {
	name string
	run  func(v int) res
}

func tree(v int) *model.V {
	return []*model.V{
		kv("m", s("A\"1"), "o", kv("t", model.T(1500000000), "l", a(n(), f(1.5), b(true)))),
		kv("m", s("B\\2"), "o", kv("t", model.T(-1), "l", a(i(-7), model.U(1<<63), kv("k", s("é"))))),
	}[v]
}

func eventRes(e *event.Event, extra ...string) res {
	r := outRes(e, nil)
	show := r.show
	r.show = func() string { return show() + " " + strings.Join(extra, " ") }
	return r
}

func funcs() []funcJob {
	return []funcJob{
		{"put, get, try and delete", func(v int) res {
			e := event.New()
			x := fmt.Sprint("v", v)
			var log []string
			note := func(w string, old *event.Value, err error) {
				log = append(log, w, fmt.Sprint(old != nil, err))
			}
			old, err := e.Put("a.b", event.String(x))
			note("put", old, err)
			old, err = e.Put("a.b", event.Integer(int64(v)))
			note("put", old, err)
			old, err = e.TryPut(`a.c\.d`, event.Array(event.String(x)))
			note("try", old, err)
			old, err = e.TryPut("a.b.c", event.Bool(true))
			note("try", old, err)
			note("get", e.Get("a.b"), nil)
			note("delete", e.Delete("a.b"), nil)
			return eventRes(e, log...)
		}},
		{"clone and format", func(v int) res {
			x := tree(v).Real()
			c := x.Clone()
			pr.Scramble(x)
			out := fmt.Sprintf("%v %s %v", c, c.Object["m"], event.Time{UnixNanos: int64(v)})
			return text(func() string { return model.From(c).Canon() + " " + fmt.Sprint(len(out)) + c.Type.String() })
		}},
		{"JSON encode", func(v int) res {
			data, err := json.Marshal(model.Build(tree(v)))
			return text(func() string { return fmt.Sprint(string(data), err) })
		}},
		{"JSON encode directly", func(v int) res {
			data, err := model.Build(tree(v)).MarshalJSON()
			return text(func() string { return fmt.Sprint(string(data), err) })
		}},
		{"JSON decode", func(v int) res {
			e := event.New()
			err := json.Unmarshal([]byte(fmt.Sprintf(`{"a":{"b":[1,-2.5,null,true,"x%d"]},"c":18446744073709551615}`, v)), e)
			return eventRes(e, fmt.Sprint(err))
		}},
		{"JSON decode of bad input", func(v int) res {
			e := event.New()
			err := e.UnmarshalJSON([]byte([]string{`{"a":[1,`, `[]`}[v]))
			return eventRes(e, fmt.Sprint(err != nil))
		}},
		{"protobuf encode", func(v int) res {
			w := protobuf.FromEvent(model.Build(tree(v)))
			data, err := proto.Marshal(w)
			return text(func() string {
				var m protobuf.MessageWrapper
				if err == nil {
					err = proto.Unmarshal(data, &m)
				}
				return fmt.Sprint(model.Snapshot(protobuf.ToLogEvent(m.GetLog())).Canon(), err)
			})
		}},
		{"protobuf decode", func(v int) res {
			w := protobuf.FromEvent(model.Build(tree(v)))
			return eventRes(protobuf.ToLogEvent(w.GetLog()))
		}},
		{"convert from maps", func(v int) res {
			e, err := mapinterface.ToEvent(map[string]interface{}{"a": map[string]interface{}{"k": []interface{}{v, "x", 1.5}}})
			return eventRes(e, fmt.Sprint(err))
		}},
		{"convert to maps", func(v int) res {
			m := mapinterface.FromEvent(model.Build(tree(v)))
			return text(func() string { return fmt.Sprint(m) })
		}},
		{"reflect a struct", func(v int) res {
			x, err := eventutil.ReflectValue(rec{Msg: fmt.Sprint("m", v), Skip: "s", inner: inner{"in", uint8(v)}, L: []interface{}{v, nil}, M: map[string]string{"k": "v"}, P: &inner{Name: "p"}})
			return text(func() string { return model.From(x).Canon() + fmt.Sprint(err) })
		}},
		{"reflect another struct", func(v int) res {
			x, err := eventutil.ReflectValue(&other{Msg: int64(v), More: []rec{{Msg: "x"}}})
			return text(func() string { return model.From(x).Canon() + fmt.Sprint(err) })
		}},
		{"reflect a bad value", func(v int) res {
			_, err := eventutil.ReflectValue(map[string]interface{}{"c": make(chan int)})
			var u *eventutil.UnsupportedTypeError
			return text(func() string { return fmt.Sprint(err, errors.As(err, &u)) })
		}},
		{"append and escape", func(v int) res {
			e := event.New()
			k := eventutil.EscapeKey(fmt.Sprintf(`x.%d\`, v))
			err1 := eventutil.Append(e, "l."+k, event.String("a"))
			err2 := eventutil.Append(e, "l."+k, event.String("b"))
			err3 := eventutil.Append(e, "l", event.String("b"))
			return eventRes(e, k, fmt.Sprint(err1, err2, err3))
		}},
		{"errors and names", func(v int) res {
			return texts(func(p func(string, ...interface{})) {
				err := fmt.Errorf("w: %w", processor.ErrorKeyMissing{Key: fmt.Sprint("k", v)})
				p("%v %v", err, errors.Is(err, processor.ErrorKeyMissing{}))
				p("%s", event.ArrayType)
				p("%s", processor.ConfigString("n", struct{ A int }{v}))
			})
		}},
		{"make and use a pipeline of its own", func(v int) res {
			d := def(set("t", kv("k", i(int64(v)))), low("m", "lo"), app("l", "z"))
			p, err := pipeline.New(d.Conf(fmt.Sprint("own", v)))
			if err != nil {
				return text(err.Error)
			}
			out, err := p.Process(model.Build([]*model.V{evA, evB}[v]))
			r := outRes(out, err)
			show := r.show
			cs := ph.Read(p)
			r.show = func() string { return show() + fmt.Sprint(len(cs)) + p.ID() }
			return r
		}},
		{"decode a definition and make a pipeline of it", func(v int) res {
			doc := fmt.Sprintf("id: y%d\nprocessors:\n- set: {target_field: t, value: {a: [1, 2]}}\n- uppercase: {field: m, on_failure: [{append: {field: e, value: x}}]}\non_failure:\n- remove: {fields: [m], ignore_missing: true}\n", v)
			var c pipeline.Config
			if err := yaml.Unmarshal([]byte(doc), &c); err != nil {
				return text(err.Error)
			}
			data, err := json.Marshal(&c)
			if err != nil {
				return text(err.Error)
			}
			p, err := pipeline.New(&c)
			if err != nil {
				return text(err.Error)
			}
			out, err := p.Process(model.Build([]*model.V{evA, evM}[v]))
			r := outRes(out, err)
			show := r.show
			r.show = func() string { return show() + string(data) }
			return r
		}},
	}
}

func (j funcJob) job(v int) job {
	return job{name: fmt.Sprintf("%s (%d)", j.name, v), run: func(*shared) res { return j.run(v) }}
}

func nothing() *shared { return nil }

func scens(tier string) []*scen {
	three := 0
	if tier == "thorough" {
		three = 1
	}
	var out []*scen
	add := func(sc *scen) {
		for k, j := range sc.jobs {
			if k > 0 {
				sc.name += " | "
			}
			sc.name += j.name
		}
		out = append(out, sc)
	}
	// One pipeline.
	for _, d := range defs() {
		for v := range d.evs {
			for w := range d.evs {
				if w < v {
					continue
				}
				add(&scen{setup: pipeShared(d.d), jobs: []job{pipeJob(d, v), pipeJob(d, w)}, least: 1})
			}
		}
		add(&scen{setup: pipeShared(d.d), jobs: []job{pipeJob(d, 0), reader()}, least: 1})
		add(&scen{setup: pipeShared(d.d), jobs: []job{pipeJob(d, 0), pipeJob(d, 1), pipeJob(d, len(d.evs)-1)}, least: three})
		add(&scen{setup: pipeShared(d.d), jobs: []job{pipeJob(d, 0), pipeJob(d, 1), reader()}, least: three})
	}
	// Every pair of functions.
	fs := funcs()
	for x := range fs {
		for y := x; y < len(fs); y++ {
			add(&scen{setup: nothing, jobs: []job{fs[x].job(0), fs[y].job(1)}, least: 1})
		}
		add(&scen{setup: nothing, jobs: []job{fs[x].job(0), fs[x].job(1), fs[x].job(0)}, least: three})
	}
	return out
}

// coldScens are the scenarios whose first use is explored.
func coldScens() []*scen {
	var out []*scen
	for _, d := range defs() {
		out = append(out, &scen{name: d.name, setup: pipeShared(d.d), jobs: []job{pipeJob(d, 0), pipeJob(d, 1)}})
	}
	for _, j := range funcs() {
		out = append(out, &scen{name: j.name, setup: nothing, jobs: []job{j.job(0), j.job(1)}})
	}
	return out
}
