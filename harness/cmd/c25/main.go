// C25: the metrics endpoint exposes exactly the registered pipelines.
package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"github.com/prometheus/common/expfmt"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/metrics"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	"verif/mc"
	"verif/model"
	_ "verif/pr"
)

// vdeep is a processor of another name than the built-in ones.
type vdeep struct{}

type vdeepConfig struct{}

func (vdeep) Process(processor.Event) error { return nil }

func (vdeep) Config() vdeepConfig { return vdeepConfig{} }

func init() {
	registry.MustRegister("v.deep[0].x", func(vdeepConfig) (*vdeep, error) { return &vdeep{}, nil })
}

var (
	client = &http.Client{Timeout: 20 * time.Second}
	hosts  []string
)

func freeHost() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	return l.Addr().String()
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "c25:", err)
		os.Exit(3)
	}
}

// listen starts the endpoint; a port that was taken meanwhile is given up.
func listen() (string, error) {
	var last error
	for try := 0; try < 5; try++ {
		h := freeHost()
		metrics.Listen(h)
		for i := 0; i < 400; i++ {
			resp, err := client.Get("http://" + h + "/metrics")
			if err == nil {
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				return h, nil
			}
			last = err
			time.Sleep(5 * time.Millisecond)
		}
	}
	return "", fmt.Errorf("the endpoint does not answer: %v", last)
}

type key struct{ name, labels string }

func add(into map[key]float64, mf *dto.MetricFamily) error {
	for _, m := range mf.Metric {
		var ls []string
		for _, l := range m.Label {
			ls = append(ls, fmt.Sprintf("%s=%q", l.GetName(), l.GetValue()))
		}
		sort.Strings(ls)
		k := key{mf.GetName(), strings.Join(ls, ",")}
		if _, dup := into[k]; dup {
			return fmt.Errorf("%v is exposed twice", k)
		}
		switch {
		case m.Counter != nil:
			into[k] = m.Counter.GetValue()
		case m.Untyped != nil:
			into[k] = m.Untyped.GetValue()
		default:
			into[k] = -1
		}
	}
	return nil
}

// scrape returns the component counters the endpoint exposes.
func scrape(t *mc.T, host string) map[key]float64 {
	t.Trans(1)
	resp, err := client.Get("http://" + host + "/metrics")
	if err != nil {
		t.Fail("scraping: %v", err)
	}
	defer resp.Body.Close()
	if resp.StatusCode != 200 {
		b, _ := io.ReadAll(resp.Body)
		t.Fail("scraping: %s: %s", resp.Status, mc.Short(string(b)))
	}
	var p expfmt.TextParser
	fams, err := p.TextToMetricFamilies(resp.Body)
	if err != nil {
		t.Fail("scraping: %v", err)
	}
	out := map[key]float64{}
	for _, mf := range fams {
		comp := false
		for _, m := range mf.Metric {
			for _, l := range m.Label {
				comp = comp || l.GetName() == "component_id"
			}
		}
		if comp {
			if err := add(out, mf); err != nil {
				t.Fail("%v", err)
			}
		}
	}
	return out
}

// inst is a pipeline and the reference state of its registration.
type inst struct {
	def  *pdef
	p    *pipeline.Pipeline
	coll []prometheus.Collector
	reg  []bool
}

type pdef struct {
	id    string
	procs func() []pipeline.ProcessorConfig
	fail  func() []pipeline.ProcessorConfig
}

func proc(typ string, cfg map[string]interface{}, h ...pipeline.ProcessorConfig) pipeline.ProcessorConfig {
	return pipeline.ProcessorConfig{typ: &pipeline.ProcessorOptionConfig{Config: cfg, OnFailure: h}}
}

type m = map[string]interface{}

var defs = []*pdef{
	{"a", func() []pipeline.ProcessorConfig {
		return []pipeline.ProcessorConfig{
			proc("lowercase", m{"field": "f"}, proc("remove", m{"fields": []string{"g"}}, proc("set", m{"target_field": "h", "value": "x"}))),
			proc("vcond", m{"field": "d", "act": "drop"}),
		}
	}, func() []pipeline.ProcessorConfig { return []pipeline.ProcessorConfig{proc("vnop", nil)} }},
	{"a.processors[1]", func() []pipeline.ProcessorConfig {
		return []pipeline.ProcessorConfig{proc("lowercase", m{"field": "f"}), proc("vcond", m{"field": "d", "act": "drop"})}
	}, nil},
	{"b\n\"\\\u2028", func() []pipeline.ProcessorConfig {
		return []pipeline.ProcessorConfig{proc("lowercase", m{"field": "f", "ignore_failure": true})}
	}, func() []pipeline.ProcessorConfig {
		return []pipeline.ProcessorConfig{proc("lowercase", m{"field": "f"}), proc("vnop", nil)}
	}},
}

func (d *pdef) new(t *mc.T) *inst {
	c := &pipeline.Config{ID: d.id, Processors: d.procs()}
	if d.fail != nil {
		c.OnFailure = d.fail()
	}
	p, err := pipeline.New(c)
	if err != nil {
		t.Fail("New: %v", err)
	}
	x := &inst{def: d, p: p, coll: p.Metrics()}
	x.reg = make([]bool, len(x.coll))
	if len(x.coll) == 0 {
		t.Fail("pipeline %q has no metrics", d.id)
	}
	return x
}

// expected adds what the registered collectors hold now.
func (x *inst) expected(t *mc.T, into map[key]float64) {
	r := prometheus.NewRegistry()
	any := false
	for i, c := range x.coll {
		if x.reg[i] {
			any = true
			if err := r.Register(c); err != nil {
				t.Fail("the collectors of pipeline %q cannot be registered together: %v", x.def.id, err)
			}
		}
	}
	if !any {
		return
	}
	fams, err := r.Gather()
	if err != nil {
		t.Fail("gathering pipeline %q: %v", x.def.id, err)
	}
	for _, mf := range fams {
		if err := add(into, mf); err != nil {
			t.Fail("%v", err)
		}
	}
}

func compare(t *mc.T, insts []*inst, host string) {
	want := map[key]float64{}
	for _, x := range insts {
		x.expected(t, want)
	}
	got := scrape(t, host)
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			t.Fail("%v is registered but not exposed", k)
		}
		if g != v {
			t.Fail("%v is exposed as %v, its value is %v", k, g, v)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			t.Fail("%v is exposed but not registered", k)
		}
	}
	t.Trace(1)
}

func (x *inst) any() bool {
	for _, r := range x.reg {
		if r {
			return true
		}
	}
	return false
}

func (x *inst) mark(from, to int, v bool) []prometheus.Collector {
	for i := from; i < to; i++ {
		x.reg[i] = v
	}
	return x.coll[from:to:to]
}

type op struct {
	name string
	do   func(t *mc.T, in []*inst) bool // false: not enabled
}

func run(p *pipeline.Pipeline, kv ...string) {
	e := event.New()
	for _, k := range kv {
		e.Put(k, event.String("X"))
	}
	p.Process(e)
}

func alphabet(n int) (ops []op) {
	for i := 0; i < n; i++ {
		i := i
		ops = append(ops,
			op{fmt.Sprintf("register(%d)", i), func(t *mc.T, in []*inst) bool {
				metrics.Register(in[i].mark(0, len(in[i].coll), true)...)
				return true
			}},
			op{fmt.Sprintf("unregister(%d)", i), func(t *mc.T, in []*inst) bool {
				metrics.Unregister(in[i].mark(0, len(in[i].coll), false)...)
				return true
			}},
			op{fmt.Sprintf("register(first half of %d)", i), func(t *mc.T, in []*inst) bool {
				metrics.Register(in[i].mark(0, len(in[i].coll)/2, true)...)
				return true
			}},
			op{fmt.Sprintf("unregister(second half of %d)", i), func(t *mc.T, in []*inst) bool {
				metrics.Unregister(in[i].mark(len(in[i].coll)/2, len(in[i].coll), false)...)
				return true
			}},
			op{fmt.Sprintf("event(%d)", i), func(t *mc.T, in []*inst) bool { run(in[i].p, "f"); return true }},
			op{fmt.Sprintf("failing event(%d)", i), func(t *mc.T, in []*inst) bool { run(in[i].p); return true }},
			op{fmt.Sprintf("rebuild(%d)", i), func(t *mc.T, in []*inst) bool {
				if in[i].any() {
					return false
				}
				in[i] = in[i].def.new(t)
				return true
			}},
		)
	}
	ops = append(ops,
		op{"register(all)", func(t *mc.T, in []*inst) bool {
			var c []prometheus.Collector
			for _, x := range in {
				c = append(c, x.mark(0, len(x.coll), true)...)
			}
			metrics.Register(c...)
			return true
		}},
		op{"unregister(all)", func(t *mc.T, in []*inst) bool {
			var c []prometheus.Collector
			for _, x := range in {
				c = append(c, x.mark(0, len(x.coll), false)...)
			}
			metrics.Unregister(c...)
			return true
		}},
		op{"register()", func(t *mc.T, in []*inst) bool { metrics.Register(); return true }},
		op{"unregister()", func(t *mc.T, in []*inst) bool { metrics.Unregister(); return true }},
		op{"scrape", func(t *mc.T, in []*inst) bool { compare(t, in, hosts[0]); return true }},
	)
	return
}

func canon(in []*inst) string {
	var b strings.Builder
	for _, x := range in {
		fmt.Fprint(&b, x.reg)
		for _, c := range x.coll {
			var d dto.Metric
			if mm, ok := c.(prometheus.Metric); ok {
				mm.Write(&d)
			}
			fmt.Fprint(&b, d.GetCounter().GetValue(), " ")
		}
	}
	return b.String()
}

// history runs ops from the empty registration and compares at the end.
func history(t *mc.T, n int, ops []op, seq []int) bool {
	names := func() string {
		var s []string
		for _, k := range seq {
			s = append(s, ops[k].name)
		}
		return strings.Join(s, "; ")
	}
	t.At(names)
	var in []*inst
	for i := 0; i < n; i++ {
		in = append(in, defs[i].new(t))
	}
	all := append([]*inst(nil), in...)
	ok := true
	for _, k := range seq {
		t.Trans(1)
		if !ops[k].do(t, in) {
			ok = false
			break
		}
		all = append(all, in...)
	}
	if ok {
		compare(t, in, hosts[len(seq)%len(hosts)])
		t.Eval(1)
		c := canon(in)
		t.State(c)
		t.Outcome(c)
		t.Sample(names)
	}
	for _, x := range all {
		metrics.Unregister(x.mark(0, len(x.coll), false)...)
	}
	return ok
}

func units(tier string, yield func(string, func(*mc.T)) bool) {
	th := tier == "thorough"
	ok := true
	y := func(k string, f func(*mc.T)) {
		if ok {
			ok = yield(k, f)
		}
	}
	plan := []struct{ n, depth int }{{1, 4}, {2, 3}, {3, 2}}
	if th {
		plan = []struct{ n, depth int }{{1, 5}, {2, 4}, {3, 3}}
	}
	for _, pl := range plan {
		pl := pl
		ops := alphabet(pl.n)
		y(fmt.Sprintf("history %d pipelines, none", pl.n), func(t *mc.T) { history(t, pl.n, ops, nil) })
		for a := range ops {
			for b := range ops {
				a, b := a, b
				y(fmt.Sprintf("history %d pipelines, %s, %s", pl.n, ops[a].name, ops[b].name), func(t *mc.T) {
					if b == 0 {
						history(t, pl.n, ops, []int{a})
					}
					var rec func(seq []int)
					rec = func(seq []int) {
						if !history(t, pl.n, ops, seq) || len(seq) == pl.depth {
							return
						}
						for k := range ops {
							rec(append(seq[:len(seq):len(seq)], k))
						}
					}
					rec([]int{a, b})
				})
			}
		}
	}
	// Counter values over many events.
	y("values", func(t *mc.T) {
		max := 200
		if th {
			max = 2000
		}
		if n := model.SourceInts(5000); len(n) > 0 && n[len(n)-1] >= max {
			max = n[len(n)-1] + 2
		}
		in := []*inst{defs[0].new(t), defs[1].new(t), defs[2].new(t)}
		for _, x := range in {
			metrics.Register(x.mark(0, len(x.coll), true)...)
		}
		for n := 0; n < max; n++ {
			n := n
			t.At(func() string { return fmt.Sprintf("%d events", n) })
			switch n % 5 {
			case 0:
				run(in[0].p, "f")
			case 1:
				run(in[1].p, "f", "d")
			case 2:
				run(in[0].p)
			case 3:
				run(in[2].p)
			case 4:
				run(in[1].p)
			}
			compare(t, in, hosts[n%len(hosts)])
			t.Eval(1)
			t.Outcome(canon(in))
		}
		for _, x := range in {
			metrics.Unregister(x.mark(0, len(x.coll), false)...)
			compare(t, in, hosts[0])
		}
	})
	// Pairs of pipelines whose ids and processors resemble each other.
	ids := []string{"a", "b", "A", "a ", "a.", ".a", "a.processors", "a.processors[0]", "a.on_failure", "a[0]", "aa", "é", "a\x00", "a\n", "a\\n", "a\"", "{}", "a,b", "0", "processors", "v.deep[0].x", strings.Repeat("a", 300)}
	shapes := []func() ([]pipeline.ProcessorConfig, []pipeline.ProcessorConfig){
		func() (a, b []pipeline.ProcessorConfig) {
			return []pipeline.ProcessorConfig{proc("vnop", nil)}, nil
		},
		func() (a, b []pipeline.ProcessorConfig) {
			return nil, []pipeline.ProcessorConfig{proc("vnop", nil)}
		},
		func() (a, b []pipeline.ProcessorConfig) {
			return []pipeline.ProcessorConfig{proc("vnop", nil, proc("vnop", nil)), proc("vnop", nil, proc("vnop", nil, proc("vnop", nil)))}, []pipeline.ProcessorConfig{proc("vnop", nil), proc("vnop", nil, proc("vnop", nil))}
		},
		func() (a, b []pipeline.ProcessorConfig) {
			return []pipeline.ProcessorConfig{proc("v.deep[0].x", nil, proc("vnop", nil)), proc("vnop", nil)}, nil
		},
	}
	for _, i1 := range ids {
		i1 := i1
		y(fmt.Sprintf("ids %q", i1), func(t *mc.T) {
			for _, i2 := range ids {
				if i1 == i2 {
					continue
				}
				for s1, f1 := range shapes {
					for s2, f2 := range shapes {
						t.Atf(fmt.Sprintf("pipelines %s (shape %d) and %s (shape %d)", mc.Short(i1), s1, mc.Short(i2), s2))
						var in []*inst
						for k, f := range []func() ([]pipeline.ProcessorConfig, []pipeline.ProcessorConfig){f1, f2} {
							p, h := f()
							id := []string{i1, i2}[k]
							in = append(in, (&pdef{id, func() []pipeline.ProcessorConfig { return p }, func() []pipeline.ProcessorConfig { return h }}).new(t))
						}
						run(in[0].p)
						run(in[1].p)
						run(in[1].p)
						pairTest(t, in)
						t.Eval(1)
						t.Outcome(fmt.Sprint(i1, i2, s1, s2))
					}
				}
			}
		})
	}
	// Unusual ids and ids made of constants of the sources, next to those they
	// might be confused with.
	odd := model.OddNames()
	for lo := 0; lo < len(odd); lo += 20 {
		hi := lo + 20
		if hi > len(odd) {
			hi = len(odd)
		}
		part := odd[lo:hi]
		y(fmt.Sprintf("unusual ids %d", lo), func(t *mc.T) {
			for _, name := range part {
				if !utf8.ValidString(name) {
					continue
				}
				t.Atf("pipeline " + mc.Short(name))
				var in []*inst
				for _, id := range append([]string{name}, model.Names(model.OddTree(name, nil, func(int) *model.V { return model.I(0) }))...) {
					if utf8.ValidString(id) && len(in) < 8 && id != "" {
						p, h := shapes[len(in)%2]()
						in = append(in, (&pdef{id, func() []pipeline.ProcessorConfig { return p }, func() []pipeline.ProcessorConfig { return h }}).new(t))
						for k := 0; k < len(in); k++ {
							run(in[k].p)
						}
					}
				}
				for _, x := range in {
					metrics.Register(x.mark(0, len(x.coll), true)...)
				}
				compare(t, in, hosts[0])
				metrics.Unregister(in[0].mark(0, len(in[0].coll), false)...)
				compare(t, in, hosts[0])
				metrics.Register(in[0].mark(0, len(in[0].coll), true)...)
				for _, x := range in[1:] {
					metrics.Unregister(x.mark(0, len(x.coll), false)...)
				}
				compare(t, in, hosts[0])
				metrics.Unregister(in[0].mark(0, len(in[0].coll), false)...)
				compare(t, in, hosts[0])
				t.Eval(1)
				t.Outcome("id " + name)
			}
		})
	}
	// A pipeline whose id spells the path of another's component: both have a
	// component of one and the same id, so one hides the other.
	y("id spelling another pipeline's component path", func(t *mc.T) {
		t.Atf(`pipelines "q" and "q.processors[0].vnop"`)
		a := (&pdef{"q", func() []pipeline.ProcessorConfig {
			return []pipeline.ProcessorConfig{proc("vnop", nil, proc("vnop", nil))}
		}, nil}).new(t)
		b := (&pdef{"q.processors[0].vnop", func() []pipeline.ProcessorConfig { return nil }, func() []pipeline.ProcessorConfig { return []pipeline.ProcessorConfig{proc("vnop", nil)} }}).new(t)
		run(a.p)
		both := map[key]float64{}
		a.expectedAll(t, both)
		n := len(both)
		t.Eval(1)
		other := map[key]float64{}
		b.expectedAll(t, other)
		clash := false
		for k := range other {
			if _, ok := both[k]; ok {
				clash = true
			}
		}
		if clash && n == 8 && len(other) == 4 {
			if !t.KnownFinding("component-path-id") {
				t.Fail("two pipelines with distinct ids have components with the same id")
			}
			return
		}
		pairTest(t, []*inst{a, b})
	})
	// Large pipelines.
	y("large", func(t *mc.T) {
		sizes := []int{1, 10, 100}
		if th {
			sizes = append(sizes, 1000)
		}
		sizes = model.WithSourceSizes(sizes, 1500)
		sort.Ints(sizes)
		for _, n := range sizes {
			var ps []pipeline.ProcessorConfig
			for i := 0; i < n; i++ {
				ps = append(ps, proc("vnop", nil, proc("vnop", nil)))
			}
			t.Atf(fmt.Sprintf("%d processors", n))
			in := []*inst{(&pdef{"a", func() []pipeline.ProcessorConfig { return ps }, nil}).new(t), defs[1].new(t)}
			run(in[0].p)
			pairTest(t, in)
			t.Eval(1)
		}
		var in []*inst
		n := sizes[len(sizes)-1]
		for i := 0; i < n; i++ {
			in = append(in, (&pdef{fmt.Sprintf("p%d", i), defs[0].procs, nil}).new(t))
			for k := 0; k < i%7; k++ {
				run(in[i].p, "f")
			}
			metrics.Register(in[i].mark(0, len(in[i].coll), true)...)
		}
		t.Atf(fmt.Sprintf("%d pipelines", n))
		compare(t, in, hosts[0])
		for i := 0; i < n; i += 3 {
			metrics.Unregister(in[i].mark(0, len(in[i].coll), false)...)
		}
		compare(t, in, hosts[0])
		for i := range in {
			metrics.Unregister(in[i].mark(0, len(in[i].coll), false)...)
		}
		compare(t, in, hosts[0])
	})
	// The command line tool's endpoint.
	for n := 0; n < 6; n++ {
		n := n
		y(fmt.Sprintf("tool, %d lines", n), func(t *mc.T) { tool(t, n) })
	}
}

func (x *inst) expectedAll(t *mc.T, into map[key]float64) {
	x.mark(0, len(x.coll), true)
	x.expected(t, into)
	x.mark(0, len(x.coll), false)
}

func pairTest(t *mc.T, in []*inst) {
	for _, step := range []struct {
		i   int
		reg bool
	}{{0, true}, {1, true}, {0, true}, {0, false}, {0, true}, {1, false}, {0, false}} {
		x := in[step.i]
		c := x.mark(0, len(x.coll), step.reg)
		if step.reg {
			metrics.Register(c...)
		} else {
			metrics.Unregister(c...)
		}
		compare(t, in, hosts[step.i%len(hosts)])
	}
}

// tool feeds lines to the command line tool and scrapes it.
func tool(t *mc.T, n int) {
	t.Atf(fmt.Sprintf("command line tool after %d lines", n))
	scratch := os.Getenv("VERIF_SCRATCH")
	def := filepath.Join(scratch, fmt.Sprintf("tool-%d.yml", os.Getpid()))
	must(os.WriteFile(def, []byte("id: tool\nprocessors:\n- uppercase: {field: event.original}\n- set: {target_field: a, value: b}\n- remove:\n    fields: [nosuch]\n    on_failure:\n    - set: {target_field: c, value: d}\n"), 0o600))
	for try := 0; ; try++ {
		host := freeHost()
		cmd := exec.Command(filepath.Join(scratch, "sawmill"), "-p", def, "-metrics-addr", host)
		cmd.Env = []string{"PATH=/usr/bin:/bin"}
		in, err := cmd.StdinPipe()
		must(err)
		out, err := cmd.StdoutPipe()
		must(err)
		must(cmd.Start())
		stop := func() { in.Close(); cmd.Process.Kill(); cmd.Wait() }
		sc := bufio.NewScanner(out)
		for i := 0; i < n; i++ {
			fmt.Fprintf(in, "line\n")
			if !sc.Scan() {
				stop()
				t.Fail("no output for line %d", i+1)
			}
		}
		up := false
		for i := 0; i < 400 && !up; i++ {
			resp, err := client.Get("http://" + host + "/metrics")
			if err == nil {
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				up = true
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		if !up {
			stop()
			if try < 4 {
				continue
			}
			t.Fail("the tool's endpoint does not answer")
		}
		got := scrape(t, host)
		stop()
		comps := map[string]map[string]float64{}
		for k, v := range got {
			if comps[k.labels] == nil {
				comps[k.labels] = map[string]float64{}
			}
			comps[k.labels][k.name] = v
		}
		if len(comps) != 4 {
			t.Fail("the endpoint exposes %d components, want 4: %v", len(comps), comps)
		}
		for id, c := range comps {
			if len(c) != 4 {
				t.Fail("component %s has %d counters, want 4: %v", id, len(c), c)
			}
			seen := 0
			for name, v := range c {
				if strings.Contains(name, "received") || strings.Contains(name, "sent") {
					seen++
					if v != float64(n) {
						t.Fail("component %s: %s is %v after %d lines", id, name, v, n)
					}
				} else if v != 0 {
					t.Fail("component %s: %s is %v", id, name, v)
				}
			}
			if seen != 2 {
				t.Fail("component %s lacks the received or sent counter: %v", id, c)
			}
		}
		t.Eval(1)
		t.Trace(1)
		return
	}
}

func main() {
	mc.Main(&mc.Check{
		ID: "C25", Level: "model_checking",
		Rule:  "a case is a history of registrations, unregistrations, events, rebuilds and scrapes over pipelines with distinct ids on the process-wide registry, ended by an HTTP scrape on loopback that is compared with the values the registered counters hold; states are the registration and all counter values",
		Units: units,
		Setup: func() error {
			for i := 0; i < 2; i++ {
				h, err := listen()
				if err != nil {
					return err
				}
				hosts = append(hosts, h)
			}
			return nil
		},
		Bounds: func(tier string) map[string]interface{} {
			if tier == "thorough" {
				return map[string]interface{}{"operations with 1, 2, 3 pipelines": "5, 4, 3", "pairs of ids": 22 * 21, "shapes per pair": 16, "pipelines registered together": 1000}
			}
			return map[string]interface{}{"operations with 1, 2, 3 pipelines": "4, 3, 2", "pairs of ids": 22 * 21, "shapes per pair": 16, "pipelines registered together": 100}
		},
		Assumptions: []string{"the Prometheus client's counters and text format are trusted; counter values against executions are C10's subject"},
	})
}
