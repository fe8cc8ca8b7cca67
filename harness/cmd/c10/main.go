// C10: processor metrics account for every event exactly once.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/prometheus/client_golang/prometheus"

	"verif/mc"
	"verif/model"
	"verif/ph"
)

func pick(tier string, q, th int) int {
	if tier == "thorough" {
		return th
	}
	return q
}

func explore(t *mc.T, s *ph.Shape, menu func(pos, step int) []ph.Outcome) { long(t, s, menu, 0) }

// long explores one pipeline again and again, for a number of events.
func long(t *mc.T, s *ph.Shape, menu func(pos, step int) []ph.Outcome, count int) {
	t.At(func() string { return s.String() })
	p, err := s.Build("p")
	if err != nil {
		t.Fail("New: %v", err)
	}
	total := map[int]*ph.Counts{}
	for i := 0; i < s.N; i++ {
		total[i] = &ph.Counts{}
	}
	events := 0
	one := func(prefix []int) *ph.Run {
		res := ph.Do(p, model.Build(model.KV("x", model.I(1))), menu, prefix, 3*s.N+10)
		events++
		t.At(func() string {
			return fmt.Sprintf("%s; event %d executed %s", s, events, ph.TraceString(res.Run.Trace))
		})
		t.Eval(1)
		t.Trans(int64(len(res.Run.Trace)))
		got := ph.ByType(t, ph.Read(p))
		if len(got) != s.N {
			t.Fail("%d processors expose counters, want %d", len(got), s.N)
		}
		ref := s.Interpret(res.Run.Trace)
		recv := map[int]int64{}
		for _, x := range res.Run.Trace {
			recv[x.Pos]++
		}
		for i := 0; i < s.N; i++ {
			g := got[ph.TypeName(i)]
			if g == nil {
				t.Fail("p%d exposes no counters", i)
			}
			w := total[i]
			w.Recv += recv[i]
			if g.Recv != w.Recv {
				t.Fail("p%d received %d events, its counter says %d", i, w.Recv, g.Recv)
			}
			if g.Recv != g.Sent+g.Errs+g.Disc {
				t.Fail("p%d: received %d != sent %d + errors %d + discarded %d", i, g.Recv, g.Sent, g.Errs, g.Disc)
			}
			if g.Sent < w.Sent || g.Errs < w.Errs || g.Disc < w.Disc {
				t.Fail("p%d: a counter went back", i)
			}
			if ref.Diverged != "" || ref.Loose {
				// The class of this event is not specified here (or the control
				// flow differs, which is C08's business).
				*w = *g
				continue
			}
			if d := ref.D[i]; d != nil {
				w.Sent += d.Sent
				w.Errs += d.Errs
				w.Disc += d.Disc
			}
			if *g != *w {
				t.Fail("p%d counters are sent %d, errors %d, discarded %d; want sent %d, errors %d, discarded %d", i, g.Sent, g.Errs, g.Disc, w.Sent, w.Errs, w.Disc)
			}
		}
		t.Outcome(s.String() + ph.TraceString(res.Run.Trace))
		return res.Run
	}
	for last := -1; events > last && (last < 0 || events < count); {
		last = events
		ph.Explore(one)
	}
	t.Sample(func() string { return s.String() })
}

// ids checks that every counter of every processor can be registered together,
// with processors that all have the same type.
func ids(t *mc.T, s *ph.Shape) {
	t.At(func() string { return "all of one type: " + s.String() })
	t.Eval(1)
	p, err := s.BuildSame("pipe.id")
	if err != nil {
		t.Fail("New: %v", err)
	}
	reg := prometheus.NewRegistry()
	for _, c := range p.Metrics() {
		if err := reg.Register(c); err != nil {
			t.Fail("registering the metrics together: %v", err)
		}
	}
	fams, err := reg.Gather()
	if err != nil {
		t.Fail("gathering: %v", err)
	}
	byID := map[string][]string{}
	for _, f := range fams {
		for _, m := range f.Metric {
			id := ""
			for _, l := range m.Label {
				if l.GetName() == "component_id" {
					id = l.GetValue()
				}
			}
			byID[id] = append(byID[id], f.GetName())
		}
	}
	if len(byID) != s.N {
		t.Fail("%d component ids, want %d", len(byID), s.N)
	}
	for id, names := range byID {
		sort.Strings(names)
		if id == "" || len(names) != 4 || !strings.Contains(names[0], "discarded") || !strings.Contains(names[1], "errors") || !strings.Contains(names[2], "received") || !strings.Contains(names[3], "sent") {
			t.Fail("component %q exposes %v", id, names)
		}
	}
	t.Outcome("ids " + s.String())
	// The list belongs to who asked for it: it can be narrowed and rearranged in
	// place, and the next one is complete again.
	whole := p.Metrics()
	mine := p.Metrics()
	for i, j := 0, len(mine)-1; i < j; i, j = i+1, j-1 {
		mine[i], mine[j] = mine[j], mine[i]
	}
	kept := append([]prometheus.Collector{}, mine...)
	same := map[prometheus.Collector]bool{}
	for _, c := range p.Metrics() {
		same[c] = true
	}
	for i := range whole {
		if !same[whole[i]] || len(same) != len(whole) {
			t.Fail("the metrics of the pipeline are others when asked for again")
		}
		if mine[i] != kept[i] {
			t.Fail("asking for the metrics again rearranged a list given out before")
		}
	}
	// Each event is counted by exactly the processors it passed: one run with
	// every processor succeeding, one with every processor failing.
	for _, o := range []ph.Outcome{ph.OK, ph.Fail} {
		before := sum(t, p)
		res := ph.Do(p, model.Build(model.O(nil)), ph.All(o), nil, 3*s.N+10)
		after := sum(t, p)
		if after.Recv-before.Recv != int64(len(res.Run.Trace)) {
			t.Fail("%d executions, counters say %d", len(res.Run.Trace), after.Recv-before.Recv)
		}
	}
}

func sum(t *mc.T, p interface{ Metrics() []prometheus.Collector }) (c ph.Counts) {
	for _, x := range ph.ByType(t, ph.ReadCollectors(p.Metrics())) {
		c.Recv += x.Recv
		c.Sent += x.Sent
		c.Errs += x.Errs
		c.Disc += x.Disc
	}
	return c
}

func main() {
	mc.Main(&mc.Check{
		ID: "C10", Level: "fault_enumeration",
		Rule: "every pipeline shape up to a number of processors x flags x every pattern of outcomes (success, failure, missing, drop, drop with error, drop with missing, cancel, cancel with error, drop then cancel, cancel then drop), one event after the other on one pipeline, all counters read and compared after every event; chains and nestings with deviations; all counters registered together for every shape; distinct by (shape, executed trace)",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"processors_all_flags": pick(tier, 3, 4), "processors_no_flags": pick(tier, 4, 5), "chain": pick(tier, 40, 100), "nesting": pick(tier, 24, 70), "id_shapes": pick(tier, 6, 8)}
		},
		Assumptions: []string{"the class in which a processor counts an event that one of its own handlers dropped or cancelled is not documented; only conservation is checked there"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			full := ph.All(ph.OK, ph.Fail, ph.Missing, ph.MissingWrapped, ph.Drop, ph.DropErr, ph.Cancel, ph.CancelErr, ph.DropCancel, ph.CancelDrop, ph.DropMissing)
			some := ph.All(ph.OK, ph.Fail, ph.Drop, ph.Cancel)
			fm := ph.All(ph.OK, ph.Fail, ph.Missing)
			block := func(n int, flags []int, f func(t *mc.T, s *ph.Shape)) bool {
				var buf []*ph.Shape
				k := 0
				flush := func() bool {
					part := buf
					buf = nil
					k++
					return len(part) == 0 || yield(fmt.Sprintf("n=%d flags=%d block %d: %s", n, len(flags), k, part[0]), func(t *mc.T) {
						for _, s := range part {
							f(t, s)
						}
					})
				}
				return ph.Shapes(n, flags, func(s *ph.Shape) bool {
					buf = append(buf, s)
					if len(buf) == 16 {
						return flush()
					}
					return true
				}) && flush()
			}
			with := func(menu func(pos, step int) []ph.Outcome) func(t *mc.T, s *ph.Shape) {
				return func(t *mc.T, s *ph.Shape) { explore(t, s, menu) }
			}
			all := []int{0, 1, 2, 3}
			for n := 0; n <= 3; n++ {
				if !block(n, all, with(full)) {
					return
				}
			}
			for n := 1; n <= pick(tier, 6, 8); n++ {
				if !block(n, []int{0}, ids) {
					return
				}
			}
			for _, count := range model.Runs(pick(tier, 3000, 40000)) {
				for n := 1; n <= 2; n++ {
					if !ph.Shapes(n, all, func(s *ph.Shape) bool {
						return yield(fmt.Sprintf("%d events: %s", count, s), func(t *mc.T) { long(t, s, full, count) })
					}) {
						return
					}
				}
			}
			if !ph.Sweeps(pick(tier, 40, 100), pick(tier, 24, 70), pick(tier, 6, 14), []ph.Outcome{ph.OK, ph.Fail, ph.Drop, ph.Cancel}, func(c ph.Case) bool {
				return yield("sweep "+c.Name, func(t *mc.T) { explore(t, c.Shape, c.Menu) })
			}) {
				return
			}
			for _, n := range sizes(pick(tier, 120, 400)) {
				n := n
				if !yield(fmt.Sprintf("ids chain and nesting %d", n), func(t *mc.T) {
					ids(t, ph.Chain(n, n, func(int) int { return 0 }))
					ids(t, ph.Deep(n, func(int) int { return 0 }))
				}) {
					return
				}
			}
			if !block(4, all, with(fm)) || !block(4, []int{0}, with(some)) {
				return
			}
			if tier == "thorough" && (!block(4, all, with(ph.All(ph.OK, ph.Fail, ph.Missing, ph.Drop, ph.Cancel))) || !block(5, []int{0, 2}, with(fm)) || !block(5, []int{0}, with(some))) {
				return
			}
		},
	})
}

func sizes(max int) []int {
	var out []int
	for n := 10; n <= max; n += 10 {
		out = append(out, n)
	}
	return model.WithSourceSizes(out, 1500)
}
