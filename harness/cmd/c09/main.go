// C09: dropping or cancelling an event stops its processing at once.
package main

import (
	"fmt"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/mc"
	"verif/model"
	"verif/ph"
)

func pick(tier string, q, th int) int {
	if tier == "thorough" {
		return th
	}
	return q
}

func explore(t *mc.T, s *ph.Shape, menu func(pos, step int) []ph.Outcome) {
	t.At(func() string { return s.String() })
	p, err := s.Build("p")
	if err != nil {
		t.Fail("New: %v", err)
	}
	exploreOn(t, p, s, menu)
	t.Sample(func() string { return s.String() })
}

// long explores one pipeline again and again, for a number of events.
func long(t *mc.T, s *ph.Shape, menu func(pos, step int) []ph.Outcome, count int) {
	p, err := s.Build("p")
	if err != nil {
		t.Fail("New: %v", err)
	}
	for done := 0; done < count; {
		n := exploreOn(t, p, s, menu)
		if n == 0 {
			break
		}
		done += n
	}
}

func exploreOn(t *mc.T, p *pipeline.Pipeline, s *ph.Shape, menu func(pos, step int) []ph.Outcome) (events int) {
	ph.Explore(func(prefix []int) *ph.Run {
		events++
		res := ph.Do(p, model.Build(model.KV("x", model.I(1))), menu, prefix, 3*s.N+10)
		t.At(func() string { return s.String() + "; executed " + ph.TraceString(res.Run.Trace) })
		t.Eval(1)
		t.Trans(int64(len(res.Run.Trace)))
		// Executions without a drop or a cancel belong to C08.
		stop := -1
		for i, x := range res.Run.Trace {
			if x.Out >= ph.Drop {
				stop = i
				break
			}
		}
		if stop < 0 {
			return res.Run
		}
		if stop != len(res.Run.Trace)-1 {
			t.Fail("p%d ran after the event was stopped (%v by p%d)", res.Run.Trace[stop+1].Pos, res.Run.Trace[stop].Out, res.Run.Trace[stop].Pos)
		}
		ph.CheckFlow(t, s, res, s.Interpret(res.Run.Trace), model.KV("x", model.I(1)))
		t.Outcome(s.String() + ph.TraceString(res.Run.Trace))
		return res.Run
	})
	return
}

func main() {
	mc.Main(&mc.Check{
		ID: "C09", Level: "fault_enumeration",
		Rule: "every pipeline shape up to a number of processors x flags x every pattern of outcomes including drop, drop with an error, cancel, and drop and cancel in both orders, chosen lazily; long chains and deep nestings with one or two deviations; counted when the event was stopped, distinct by (shape, executed trace)",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"processors_all_flags_all_outcomes": pick(tier, 3, 4), "processors_no_flags": pick(tier, 5, 6), "chain": pick(tier, 70, 300), "nesting": pick(tier, 40, 200)}
		},
		Assumptions: []string{"a processor that cancels and returns an error at once has no documented result and is not checked"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			full := ph.All(ph.OK, ph.Fail, ph.Missing, ph.Drop, ph.DropErr, ph.DropMissing, ph.Cancel, ph.DropCancel, ph.CancelDrop)
			some := ph.All(ph.OK, ph.Fail, ph.Drop, ph.Cancel)
			block := func(n int, flags []int, menu func(pos, step int) []ph.Outcome) bool {
				var buf []*ph.Shape
				k := 0
				flush := func() bool {
					part := buf
					buf = nil
					k++
					return len(part) == 0 || yield(fmt.Sprintf("n=%d flags=%d block %d: %s", n, len(flags), k, part[0]), func(t *mc.T) {
						for _, s := range part {
							explore(t, s, menu)
						}
					})
				}
				return ph.Shapes(n, flags, func(s *ph.Shape) bool {
					buf = append(buf, s)
					if len(buf) == 20 {
						return flush()
					}
					return true
				}) && flush()
			}
			for n := 0; n <= 3; n++ {
				if !block(n, []int{0, 1, 2, 3}, full) {
					return
				}
			}
			for _, count := range model.Runs(pick(tier, 3000, 40000)) {
				for n := 1; n <= 2; n++ {
					if !ph.Shapes(n, []int{0, 1, 2, 3}, func(s *ph.Shape) bool {
						return yield(fmt.Sprintf("%d events: %s", count, s), func(t *mc.T) { long(t, s, full, count) })
					}) {
						return
					}
				}
			}
			if !ph.Sweeps(pick(tier, 70, 300), pick(tier, 40, 200), pick(tier, 16, 30), []ph.Outcome{ph.Drop, ph.DropErr, ph.DropCancel, ph.Cancel, ph.Fail, ph.OK}, func(c ph.Case) bool {
				return yield("sweep "+c.Name, func(t *mc.T) { explore(t, c.Shape, c.Menu) })
			}) {
				return
			}
			if !block(4, []int{0, 1, 2, 3}, some) || !block(5, []int{0}, some) {
				return
			}
			if tier == "thorough" && (!block(4, []int{0, 1, 2, 3}, full) || !block(5, []int{0, 2}, some) || !block(6, []int{0}, some)) {
				return
			}
		},
	})
}
