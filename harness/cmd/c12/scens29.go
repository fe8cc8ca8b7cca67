//go:build verifinstr

package main

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"github.com/prometheus/common/expfmt"

	"github.com/andrewkroh/go-sawmill/pkg/metrics"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	"verif/model"
	"verif/ph"
)

// C29: the metrics of pipelines are registered, unregistered and scraped while
// pipelines are made and run.

// slot is a pipeline of a run.
type slot struct {
	p  *pipeline.Pipeline
	in bool // registered in the end
}

// cs are the metrics, asked for anew each time.
func (s *slot) cs() []prometheus.Collector { return s.p.Metrics() }

var (
	once   sync.Once
	host   string
	client = &http.Client{Timeout: 20 * time.Second}
)

func endpoint() string {
	once.Do(func() {
		for try := 0; try < 5; try++ {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			h := l.Addr().String()
			l.Close()
			metrics.Listen(h)
			for i := 0; i < 400; i++ {
				if resp, err := client.Get("http://" + h + "/metrics"); err == nil {
					io.Copy(io.Discard, resp.Body)
					resp.Body.Close()
					host = h
					return
				}
				time.Sleep(5 * time.Millisecond)
			}
		}
		panic("the endpoint does not answer")
	})
	return host
}

// scrape reads the component counters the endpoint exposes.
func scrape() (map[string]float64, error) {
	resp, err := client.Get("http://" + endpoint() + "/metrics")
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	if resp.StatusCode != 200 {
		b, _ := io.ReadAll(resp.Body)
		return nil, fmt.Errorf("%s: %s", resp.Status, b)
	}
	var p expfmt.TextParser
	fams, err := p.TextToMetricFamilies(resp.Body)
	if err != nil {
		return nil, err
	}
	out := map[string]float64{}
	for _, mf := range fams {
		for _, m := range mf.Metric {
			id, typ := label(m)
			if id == "" {
				continue
			}
			k := fmt.Sprint(id, " ", typ, " ", mf.GetName())
			if _, dup := out[k]; dup {
				return nil, fmt.Errorf("%s is exposed twice", k)
			}
			switch {
			case m.Counter != nil:
				out[k] = m.Counter.GetValue()
			case m.Untyped != nil:
				out[k] = m.Untyped.GetValue()
			default:
				out[k] = -1
			}
		}
	}
	return out, nil
}

func label(m *dto.Metric) (id, typ string) {
	for _, l := range m.Label {
		switch l.GetName() {
		case "component_id":
			id = l.GetValue()
		case "component_type":
			typ = l.GetValue()
		}
	}
	return
}

func keyed(cs []ph.Counter, into map[string]float64) {
	for _, c := range cs {
		into[fmt.Sprint(c.ID, " ", c.Type, " ", c.Name)] = c.Value
	}
}

func diff(got, want map[string]float64) string {
	var l []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			l = append(l, k+" is registered but not exposed")
		} else if g != v {
			l = append(l, fmt.Sprintf("%s is exposed as %v, its value is %v", k, g, v))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			l = append(l, k+" is exposed but not registered")
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func mpipe(name string) *slot {
	p, err := pipeline.New(def(low("m", "lo"), ign(fail("x")), app("l", "z")).Conf(name))
	if err != nil {
		panic(err)
	}
	return &slot{p: p}
}

// mshared has the pipelines 0 and 1 (not registered), 2 and 3 (registered), room
// for the pipelines 4 and 5, and one that stays registered.
func mshared() *shared {
	endpoint()
	sh := &shared{}
	for k := 0; k < 7; k++ {
		if k == 4 || k == 5 {
			sh.slots = append(sh.slots, &slot{})
			continue
		}
		s := mpipe(fmt.Sprint("p", k))
		if k >= 2 {
			metrics.Register(s.cs()...)
			s.in = true
		}
		sh.slots = append(sh.slots, s)
	}
	return sh
}

// msame is for threads that all register pipeline 0.
func msame() *shared {
	sh := mshared()
	sh.slots[0].in = true
	return sh
}

func mempty() *shared {
	sh := &shared{}
	for k := 0; k < 7; k++ {
		sh.slots = append(sh.slots, &slot{})
	}
	return sh
}

func (s *slot) register() {
	metrics.Register(s.cs()...)
	if !s.in {
		s.in = true
	}
}

func mfinal(sh *shared) string {
	want := map[string]float64{}
	for _, s := range sh.slots {
		if s.in {
			keyed(ph.Read(s.p), want)
		}
	}
	got, err := scrape()
	if err != nil {
		return "scraping: " + err.Error()
	}
	if m := diff(got, want); m != "" {
		return "afterwards the endpoint is wrong: " + m
	}
	return ""
}

func mclean(sh *shared) {
	for _, s := range sh.slots {
		if s.p != nil {
			metrics.Unregister(s.cs()...)
		}
	}
}

func say(p *pipeline.Pipeline, ev *model.V) string {
	out, err := p.Process(model.Build(ev))
	if err != nil || out == nil {
		return fmt.Sprint(out, err)
	}
	return model.Snapshot(out).Canon()
}

// mjobs are the jobs; v is which pipeline of the kind they use. Every job can
// run twice with the same outcome.
func mjobs() []func(v int) job {
	evs := []*model.V{evA, evX}
	mk := func(name string, f func(sh *shared, v int) res) func(v int) job {
		return func(v int) job {
			return job{name: fmt.Sprintf("%s (%d)", name, v), run: func(sh *shared) res { return f(sh, v) }}
		}
	}
	return []func(v int) job{
		mk("register", func(sh *shared, v int) res {
			s := sh.slots[v]
			s.register()
			return text(func() string { return "" })
		}),
		mk("register, process an event, unregister", func(sh *shared, v int) res {
			s := sh.slots[v]
			metrics.Register(s.cs()...)
			x := say(s.p, evs[v])
			metrics.Unregister(s.cs()...)
			s.in = false
			return text(func() string { return x })
		}),
		mk("process an event, unregister", func(sh *shared, v int) res {
			s := sh.slots[2+v]
			x := say(s.p, evs[v])
			metrics.Unregister(s.cs()...)
			s.in = false
			return text(func() string { return x })
		}),
		mk("unregister half, register again", func(sh *shared, v int) res {
			s := sh.slots[2+v]
			cs := s.cs()
			metrics.Unregister(cs[:len(cs)/2]...)
			s.register()
			return text(func() string { return "" })
		}),
		mk("make a pipeline, register it, process an event", func(sh *shared, v int) res {
			n := mpipe(fmt.Sprint("new", v))
			if old := sh.slots[4+v]; old.p != nil {
				metrics.Unregister(old.cs()...)
			}
			sh.slots[4+v] = n
			n.register()
			x := say(n.p, evs[v])
			return text(func() string { return x + fmt.Sprint(ph.Read(n.p)) })
		}),
		mk("scrape twice", func(sh *shared, v int) res {
			a, err := scrape()
			if err == nil {
				var b map[string]float64
				b, err = scrape()
				for k, x := range a {
					if y, ok := b[k]; ok && y < x {
						err = fmt.Errorf("%s fell from %v to %v", k, x, y)
					}
				}
				keep := map[string]float64{}
				keyed(ph.Read(sh.slots[6].p), keep)
				for k := range keep {
					if _, ok := a[k]; !ok {
						err = fmt.Errorf("%s is registered all the time but not exposed", k)
					}
					if _, ok := b[k]; !ok {
						err = fmt.Errorf("%s is registered all the time but not exposed the second time", k)
					}
				}
			}
			return text(func() string { return fmt.Sprint(err) })
		}),
		mk("build processors by name, register processors of its own", func(sh *shared, v int) res {
			return texts(func(p func(string, ...interface{})) {
				x, err := registry.NewProcessor("lowercase", map[string]interface{}{"field": fmt.Sprint("f", v)})
				p("%v %v", x, err)
				x, err = registry.NewProcessor("set", map[string]interface{}{"target_field": "t", "value": map[string]interface{}{"k": v}})
				p("%v %v", x, err)
				_, err = registry.NewProcessor(fmt.Sprint("nobody", v), nil)
				p("%v", err)
				_, err = registry.NewProcessor("append", map[string]interface{}{"field": []string{"a", "b"}})
				p("%v", err != nil)
				r := registry.NewRegistry()
				c := func(c ownCfg) (*ownProc, error) { return &ownProc{c}, nil }
				p("%v", r.Register(fmt.Sprint("own", v), c))
				p("%v", r.Register(fmt.Sprint("own", v), c))
				p("%v", r.Register("bad", 1) != nil)
				x, err = r.NewProcessor(fmt.Sprint("own", v), map[string]interface{}{"field": fmt.Sprint("x", v)})
				p("%v %v", x, err)
			})
		}),
	}
}

type ownCfg struct {
	Field string `config:"field"`
}

type ownProc struct{ c ownCfg }

func (p *ownProc) Process(processor.Event) error { return nil }
func (p *ownProc) String() string                { return "own " + p.c.Field }
func (p *ownProc) Config() ownCfg                { return p.c }

func mscens(tier string) []*scen {
	three := 0
	if tier == "thorough" {
		three = 1
	}
	var out []*scen
	add := func(least int, js ...job) {
		s := &scen{setup: mshared, jobs: js, least: least, final: mfinal, clean: mclean}
		for k, j := range js {
			if k > 0 {
				s.name += " | "
			}
			s.name += j.name
		}
		out = append(out, s)
	}
	js := mjobs()
	for x := range js {
		for y := x; y < len(js); y++ {
			add(1, js[x](0), js[y](1))
		}
		add(three, js[x](0), js[(x+1)%len(js)](1), js[5](0))
	}
	// The same pipeline, registered by two goroutines.
	add(1, js[3](0), js[3](0))
	n := len(out)
	add(1, js[0](0), js[0](0))
	add(three, js[0](0), js[0](0), js[5](0))
	for _, s := range out[n:] {
		s.setup = msame
	}
	return out
}

func mcold() []*scen {
	js := mjobs()
	var out []*scen
	for _, k := range []int{4, 6} {
		out = append(out, &scen{name: js[k](0).name, setup: mempty, jobs: []job{js[k](0), js[k](1)}, final: mfinal, clean: mclean})
	}
	out = append(out, &scen{name: "make, build", setup: mempty, jobs: []job{js[4](0), js[6](1)}, final: mfinal, clean: mclean})
	return out
}
