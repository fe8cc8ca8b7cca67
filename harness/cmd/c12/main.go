//go:build verifinstr

// C12: concurrent use on distinct events behaves like sequential use, and C29:
// metrics can be registered and scraped meanwhile.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"verif/mc"
	"verif/ph"
	"verif/pr"
	"verif/sched"
)

// outcome of one schedule.
type outcome struct {
	sched.Result
	results []res
	bad     string
}

// expect is what the threads of a scenario obtain alone.
type expect struct {
	shows    []string
	counters [][]ph.Counter
}

func counters(sh *shared) []ph.Counter {
	if sh == nil || sh.p == nil {
		return nil
	}
	return ph.Read(sh.p)
}

func alone(s *scen) expect {
	var x expect
	for _, j := range s.jobs {
		sh := s.setup()
		r := j.run(sh)
		x.shows = append(x.shows, r.show())
		x.counters = append(x.counters, counters(sh))
		if s.clean != nil {
			s.clean(sh)
		}
	}
	return x
}

// run runs one schedule and judges it. x is computed afterwards if nil, so that
// nothing of the library ran before the schedule.
func run(s *scen, order []int, plan []sched.Preempt, x *expect) outcome {
	sh := s.setup()
	if s.clean != nil {
		defer s.clean(sh)
	}
	o := outcome{results: make([]res, len(s.jobs))}
	var bodies []func()
	for i := range s.jobs {
		i := i
		bodies = append(bodies, func() { o.results[i] = s.jobs[i].run(sh) })
	}
	o.Result = sched.Run(bodies, order, plan)
	if o.Deadlock {
		o.bad = "deadlock"
		return o
	}
	for i, p := range o.Panics {
		if p != "" {
			o.bad = fmt.Sprintf("thread %d: %s", i, p)
			return o
		}
	}
	if s.final != nil {
		if o.bad = s.final(sh); o.bad != "" {
			return o
		}
	}
	var shows []string
	for _, r := range o.results {
		shows = append(shows, r.show())
	}
	got := counters(sh)
	if x == nil {
		y := alone(s)
		x = &y
	}
	for i, j := range s.jobs {
		if j.reader {
			if m := j.between(o.results[i].counters, got); m != "" {
				o.bad = fmt.Sprintf("thread %d (%s): %s", i, j.name, m)
				return o
			}
			continue
		}
		if shows[i] != x.shows[i] {
			o.bad = fmt.Sprintf("thread %d (%s) obtained\n %s\nalone it obtains\n %s", i, j.name, shows[i], x.shows[i])
			return o
		}
		if j.want != "" && shows[i] != j.want {
			o.bad = fmt.Sprintf("thread %d (%s) obtained\n %s\nwant\n %s", i, j.name, shows[i], j.want)
			return o
		}
	}
	sum := func(extra int) string {
		cs := counters(sh)
		for k := range cs {
			want := 0.0
			for i := range s.jobs {
				want += x.counters[i][k].Value
			}
			if extra >= 0 {
				want += x.counters[extra][k].Value
			}
			if cs[k].Value != want {
				return fmt.Sprintf("counter %s of %s is %v, the threads' work sums to %v", cs[k].Name, cs[k].ID, cs[k].Value, want)
			}
		}
		return ""
	}
	if o.bad = sum(-1); o.bad != "" {
		return o
	}
	// Nothing is shared between the results.
	for i := range s.jobs {
		if o.results[i].wreck == nil {
			continue
		}
		o.results[i].wreck()
		for k := i + 1; k < len(s.jobs); k++ {
			if now := o.results[k].show(); now != shows[k] && !s.jobs[k].reader {
				o.bad = fmt.Sprintf("overwriting the result of thread %d changed the result of thread %d (%s) from\n %s\nto\n %s", i, k, s.jobs[k].name, shows[k], now)
				return o
			}
		}
	}
	// What the threads shared still works.
	for i, j := range s.jobs {
		if j.reader {
			continue
		}
		if r := j.run(sh).show(); r != x.shows[i] {
			o.bad = fmt.Sprintf("afterwards, %s obtained\n %s\ninstead of\n %s", j.name, r, x.shows[i])
			return o
		}
		o.bad = sum(i)
		return o
	}
	return o
}

func describe(s *scen, order []int, plan []sched.Preempt) string {
	var b strings.Builder
	for i, j := range s.jobs {
		fmt.Fprintf(&b, "thread %d: %s; ", i, j.name)
	}
	fmt.Fprintf(&b, "order %v", order)
	for _, p := range plan {
		fmt.Fprintf(&b, ", at point %d switch to thread %d", p.At, p.To)
	}
	return b.String()
}

// children lists the schedules with one more preemption.
func children(o sched.Result, plan []sched.Preempt, n int) []sched.Preempt {
	from := 1
	if len(plan) > 0 {
		from = plan[len(plan)-1].At + 1
	}
	var out []sched.Preempt
	seg := 0
	for at := from; at < o.Points; at++ {
		for seg+1 < len(o.Segs) && o.Segs[seg+1].From <= at {
			seg++
		}
		if o.Segs[seg].From == at {
			continue // the same as choosing another thread before
		}
		for to := 0; to < n; to++ {
			if to != o.Segs[seg].Thread && o.Ends[to] > at {
				out = append(out, sched.Preempt{At: at, To: to})
			}
		}
	}
	return out
}

func perms(n int) [][]int {
	if n == 2 {
		return [][]int{{0, 1}, {1, 0}}
	}
	return [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
}

// explore runs every schedule of the unit: those whose first preemption is r
// modulo k (and, for r = 0, the one without). The bound on the preemptions is
// the largest, from least to 3, with at most max schedules (as estimated from
// the number of switch points).
func explore(t *mc.T, s *scen, order []int, least int, max float64, r, k int) {
	x := alone(s)
	for i, j := range s.jobs {
		if j.want != "" && x.shows[i] != j.want {
			t.Fail("%s, run alone, obtained\n %s\nwant\n %s", j.name, x.shows[i], j.want)
		}
	}
	bound := -1
	name := mc.Hash(fmt.Sprint(s.name, order))
	var rec func(plan []sched.Preempt)
	rec = func(plan []sched.Preempt) {
		t.At(func() string { return describe(s, order, plan) })
		o := run(s, order, plan, &x)
		if o.bad != "" {
			t.Fail("%s", o.bad)
		}
		if len(plan) > 0 || r == 0 {
			t.Eval(1)
			t.Trace(1)
			t.Trans(int64(o.Points))
			t.Count(fmt.Sprintf("schedules with %d preemptions", len(plan)), 1)
			t.Count("lock waits", int64(o.Waits))
			// The control states where the schedule switches.
			for _, g := range o.Segs {
				t.StateN(name + uint64(g.From)*0x9e3779b97f4a7c15 + uint64(g.Thread)*0xc2b2ae3d27d4eb4f)
			}
			h := name
			for _, p := range plan {
				h = (h ^ (uint64(p.At)<<3 | uint64(p.To)<<1 | 1)) * 0x9e3779b97f4a7c15
				h ^= h >> 29
			}
			t.OutcomeN(h)
		}
		if bound < 0 {
			est := float64(len(children(o.Result, nil, len(s.jobs))))
			for bound = least; bound < 3; bound++ {
				n := est
				for i := 1; i <= bound; i++ {
					n *= float64(o.Points) / 2
				}
				if n > max {
					break
				}
			}
			if r == 0 {
				t.Count(fmt.Sprintf("scenarios explored with up to %d preemptions", bound), 1)
			}
		}
		if len(plan) == bound {
			return
		}
		for _, p := range children(o.Result, plan, len(s.jobs)) {
			if len(plan) == 0 && p.At%k != r {
				continue
			}
			rec(append(plan[:len(plan):len(plan)], p))
		}
	}
	rec(nil)
	if r == 0 {
		t.Sample(func() string { return describe(s, order, nil) })
	}
}

// cold runs every schedule of the unit in a process of its own, where the
// library has not been used yet.
func cold(t *mc.T, s *scen, order []int, r, k int) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	child := func(at, to int) (points []sched.Preempt) {
		t.At(func() string {
			return "first use in the process: " + describe(s, order, []sched.Preempt{{At: at, To: to}})
		})
		cmd := exec.Command(exe)
		cmd.Env = append(os.Environ(), "VERIF_COLD="+s.name, fmt.Sprintf("VERIF_COLD_PLAN=%d %d %d", order[0], at, to))
		out, err := cmd.CombinedOutput()
		if err != nil {
			t.Fail("%v: %s", err, pr.Clip2(string(out), 5000))
		}
		line := strings.TrimSpace(string(out))
		i := strings.LastIndex(line, "POINTS")
		if i < 0 {
			t.Fail("no answer: %s", out)
		}
		for _, f := range strings.Fields(line[i+6:]) {
			a, b, _ := strings.Cut(f, ":")
			p, _ := strconv.Atoi(a)
			q, _ := strconv.Atoi(b)
			points = append(points, sched.Preempt{At: p, To: q})
		}
		t.Eval(1)
		t.Trace(1)
		t.Trans(int64(len(points)))
		t.Count("schedules in fresh processes", 1)
		t.OutcomeN(mc.Hash(fmt.Sprint("cold", s.name, order, at, to)))
		return points
	}
	for _, p := range child(-1, 0) {
		if p.At%k == r {
			child(p.At, p.To)
		}
	}
}

func coldMain(name string) {
	var first, at, to int
	fmt.Sscan(os.Getenv("VERIF_COLD_PLAN"), &first, &at, &to)
	for _, s := range firsts() {
		if s.name != name {
			continue
		}
		order := []int{first, 1 - first}
		var plan []sched.Preempt
		if at >= 0 {
			plan = []sched.Preempt{{At: at, To: to}}
		}
		o := run(s, order, plan, nil)
		if o.bad != "" {
			fmt.Println(o.bad)
			os.Exit(1)
		}
		fmt.Print("POINTS")
		for _, p := range children(o.Result, plan, 2) {
			fmt.Printf(" %d:%d", p.At, p.To)
		}
		fmt.Println()
		return
	}
	fmt.Println("unknown scenario", name)
	os.Exit(1)
}

// checkID is set when the check is linked: C12 or C29.
var checkID = "C12"

func all(tier string) []*scen {
	if checkID == "C29" {
		return mscens(tier)
	}
	return scens(tier)
}

func firsts() []*scen {
	if checkID == "C29" {
		return mcold()
	}
	return coldScens()
}

func main() {
	ph.Quiet()
	os.Setenv("GORACE", "halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	if c := os.Getenv("VERIF_COLD"); c != "" {
		go func() { time.Sleep(60 * time.Second); fmt.Println("the schedule does not end"); os.Exit(1) }()
		coldMain(c)
		return
	}
	rule := "stateless model checking of the real code: every schedule with up to the bounded number of preemptions, at every statement, of two or three goroutines that use one shared pipeline or the library's functions on distinct events; the race detector (which sees only the program's own synchronisation) watches every schedule, and results, counters and later behaviour are compared with those obtained alone; schedules of the first use run in fresh processes"
	if checkID == "C29" {
		rule = "stateless model checking of the real code: every schedule with up to the bounded number of preemptions, at every statement, of two or three goroutines that register and unregister the metrics of distinct pipelines (or register those of the same one), make and run pipelines, build processors by name, fill registries of their own and scrape the endpoint; the race detector watches every schedule; what each goroutine obtains is compared with what it obtains alone, and what the endpoint exposes in the end with the counters of exactly the registered pipelines; schedules of the first use run in fresh processes"
	}
	mc.Main(&mc.Check{
		ID:    checkID,
		Level: "model_checking",
		Rule:  rule,
		Less:  130, // the race detector takes several times the heap
		Bounds: func(tier string) map[string]interface{} {
			more := fmt.Sprint("; up to 3 where that is at most ", limit(tier), " schedules")
			return map[string]interface{}{"preemptions, two threads": "1" + more, "preemptions, three threads": pick(tier, "0", "1") + more, "preemptions, first use": 1, "switch points": "before every statement of the library and at every sync and sync/atomic operation"}
		},
		Assumptions: []string{"standard library and prometheus operations are atomic steps (the race detector still watches inside them)", "sequentially consistent memory for race-free code"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			if checkID == "C29" && !overlaps(tier, yield) {
				return
			}
			for _, s := range all(tier) {
				s := s
				k, max := 2, limit(tier)
				if tier == "thorough" {
					k = 8
				}
				for _, order := range perms(len(s.jobs)) {
					order := order
					for r := 0; r < k; r++ {
						r := r
						if !yield(fmt.Sprintf("%s, order %v, part %d of %d", s.name, order, r, k), func(t *mc.T) { explore(t, s, order, s.least, max, r, k) }) {
							return
						}
					}
				}
			}
			for _, s := range firsts() {
				s := s
				for first := 0; first < 2; first++ {
					if s.same && first == 1 {
						break
					}
					first := first
					for r := 0; r < 4; r++ {
						r := r
						if !yield(fmt.Sprintf("first use: %s, thread %d first, part %d of 4", s.name, first, r), func(t *mc.T) { cold(t, s, []int{first, 1 - first}, r, 4) }) {
							return
						}
					}
				}
			}
		},
	})
}

// limit is how many schedules of a scenario with more preemptions may have.
func limit(tier string) float64 {
	max := 3000.0
	if tier == "thorough" {
		max = 35000
	}
	if checkID == "C29" {
		max /= 10 // scraping takes long
	}
	return max
}

func pick(tier, q, th string) string {
	if tier == "thorough" {
		return th
	}
	return q
}
