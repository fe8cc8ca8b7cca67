// C08: pipeline failure handling follows the documented control flow.
package main

import (
	"fmt"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/mc"
	"verif/model"
	"verif/ph"
)

func pick(tier string, q, th int) int {
	if tier == "thorough" {
		return th
	}
	return q
}

func explore(t *mc.T, s *ph.Shape, menu func(pos, step int) []ph.Outcome) {
	t.At(func() string { return s.String() })
	p, err := s.Build("p")
	if err != nil {
		t.Fail("New: %v", err)
	}
	exploreOn(t, p, s, menu)
	t.Sample(func() string { return s.String() })
}

// long explores one pipeline again and again, for a number of events.
func long(t *mc.T, s *ph.Shape, menu func(pos, step int) []ph.Outcome, count int) {
	p, err := s.Build("p")
	if err != nil {
		t.Fail("New: %v", err)
	}
	for done := 0; done < count; {
		n := exploreOn(t, p, s, menu)
		if n == 0 {
			break
		}
		done += n
	}
}

func exploreOn(t *mc.T, p *pipeline.Pipeline, s *ph.Shape, menu func(pos, step int) []ph.Outcome) (events int) {
	ph.Explore(func(prefix []int) *ph.Run {
		events++
		res := ph.Do(p, model.Build(model.KV("x", model.I(1))), menu, prefix, 3*s.N+10)
		t.At(func() string { return s.String() + "; executed " + ph.TraceString(res.Run.Trace) })
		ref := s.Interpret(res.Run.Trace)
		ph.CheckFlow(t, s, res, ref, model.KV("x", model.I(1)))
		t.Eval(1)
		t.Trans(int64(len(res.Run.Trace)))
		t.Outcome(s.String() + ph.TraceString(res.Run.Trace))
		return res.Run
	})
	return
}

func main() {
	mc.Main(&mc.Check{
		ID: "C08", Level: "fault_enumeration",
		Rule: "every pipeline shape (nesting of processors and on_failure lists, flags) up to a number of processors x every pattern of outcomes (success, failure, missing key, wrapped missing key) chosen lazily as processors run, plus long chains, long handler lists and deep nestings with one or two deviations; distinct by (shape, executed trace)",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"processors_all_flags_all_outcomes": pick(tier, 3, 4), "processors_all_flags": pick(tier, 4, 5), "processors_three_flag_settings": 5, "processors_plain_failures": pick(tier, 6, 7), "chain": pick(tier, 70, 300), "nesting": pick(tier, 40, 200)}
		},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			run := func(s *ph.Shape, menu func(pos, step int) []ph.Outcome) bool {
				return yield(s.String(), func(t *mc.T) { explore(t, s, menu) })
			}
			full := ph.All(ph.OK, ph.Fail, ph.Missing, ph.MissingWrapped)
			three := ph.All(ph.OK, ph.Fail, ph.Missing)
			two := ph.All(ph.OK, ph.Fail)
			for n := 0; n <= pick(tier, 3, 4); n++ {
				if !ph.Shapes(n, []int{0, 1, 2, 3}, func(s *ph.Shape) bool { return run(s, full) }) {
					return
				}
			}
			if !ph.Sweeps(pick(tier, 70, 300), pick(tier, 40, 200), pick(tier, 16, 40), []ph.Outcome{ph.OK, ph.Fail, ph.Missing}, func(c ph.Case) bool {
				return yield("sweep "+c.Name, func(t *mc.T) { explore(t, c.Shape, c.Menu) })
			}) {
				return
			}
			for _, count := range model.Runs(pick(tier, 3000, 40000)) {
				for n := 1; n <= 2; n++ {
					if !ph.Shapes(n, []int{0, 1, 2, 3}, func(s *ph.Shape) bool {
						return yield(fmt.Sprintf("%d events: %s", count, s), func(t *mc.T) { long(t, s, full, count) })
					}) {
						return
					}
				}
			}
			for k := 0; k < ph.Kinds; k++ {
				k := k
				for n := 1; n <= 2; n++ {
					if !ph.Shapes(n, []int{0, 1, 2, 3}, func(s *ph.Shape) bool {
						return yield(fmt.Sprintf("errors of kind %d: %s", k, s), func(t *mc.T) {
							ph.Kind = k
							defer func() { ph.Kind = -1 }()
							explore(t, s, full)
						})
					}) {
						return
					}
				}
			}
			// Shapes are generated lazily, one unit per block of shapes.
			block := func(n int, flags []int, menu func(pos, step int) []ph.Outcome) bool {
				var buf []*ph.Shape
				k := 0
				flush := func() bool {
					part := buf
					buf = nil
					k++
					return len(part) == 0 || yield(fmt.Sprintf("n=%d flags=%d block %d: %s", n, len(flags), k, part[0]), func(t *mc.T) {
						for _, s := range part {
							explore(t, s, menu)
						}
					})
				}
				return ph.Shapes(n, flags, func(s *ph.Shape) bool {
					buf = append(buf, s)
					if len(buf) == 40 {
						return flush()
					}
					return true
				}) && flush()
			}
			if !block(pick(tier, 4, 5), []int{0, 1, 2, 3}, three) {
				return
			}
			if tier != "thorough" && !block(5, []int{0, 1, 2}, three) {
				return
			}
			for n := 6; n <= pick(tier, 6, 7); n++ {
				if !block(n, []int{0}, two) || tier == "thorough" && n == 6 && !block(n, []int{0, 2}, two) {
					return
				}
			}
		},
	})
}
