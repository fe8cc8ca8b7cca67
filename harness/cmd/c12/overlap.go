//go:build verifinstr

package main

import (
	"fmt"
	"time"

	"github.com/prometheus/client_golang/prometheus"

	"github.com/andrewkroh/go-sawmill/pkg/metrics"

	"verif/mc"
	"verif/ph"
)

// gate is a collector that holds every scrape until it is let go.
type gate struct {
	desc    *prometheus.Desc
	arrived chan chan struct{}
}

func (g *gate) Describe(ch chan<- *prometheus.Desc) { ch <- g.desc }

func (g *gate) Collect(ch chan<- prometheus.Metric) {
	leave := make(chan struct{})
	g.arrived <- leave
	<-leave
	ch <- prometheus.MustNewConstMetric(g.desc, prometheus.GaugeValue, 1)
}

// overlap has n scrapes in progress at once, does something meanwhile and lets
// the scrapes go in an order.
func overlap(t *mc.T, n int, order []int, during func(sh *shared)) {
	sh := mshared()
	defer mclean(sh)
	g := &gate{desc: prometheus.NewDesc("verif_gate", "Holds a scrape.", nil, nil), arrived: make(chan chan struct{}, 2*n)}
	metrics.Register(g)
	keep := map[string]float64{}
	keyed(ph.Read(sh.slots[6].p), keep)
	type reply struct {
		got map[string]float64
		err error
	}
	done := make(chan reply, n)
	for i := 0; i < n; i++ {
		go func() {
			got, err := scrape()
			done <- reply{got, err}
		}()
	}
	// An endpoint may serve scrapes one after the other.
	var held []chan struct{}
	var replies []reply
	late := time.After(5 * time.Second)
wait:
	for len(held)+len(replies) < n {
		select {
		case c := <-g.arrived:
			held = append(held, c)
		case r := <-done:
			replies = append(replies, r)
		case <-late:
			break wait
		}
	}
	over := make(chan bool)
	go func() {
		during(sh)
		close(over)
	}()
	select {
	case <-over:
	case <-time.After(300 * time.Millisecond):
	}
	for _, i := range order {
		if i < len(held) {
			close(held[i])
			held[i] = nil
		}
	}
	for len(replies) < n {
		select {
		case c := <-g.arrived:
			close(c)
		case r := <-done:
			replies = append(replies, r)
		case <-time.After(30 * time.Second):
			t.Fail("%d of %d scrapes never end", n-len(replies), n)
		}
	}
	<-over
	metrics.Unregister(g)
	for _, r := range replies {
		if r.err != nil {
			t.Fail("one of %d scrapes at the same time: %v", n, r.err)
		}
		for k, v := range keep {
			if g, ok := r.got[k]; !ok || g != v {
				t.Fail("%s is registered all the time with value %v but a scrape shows %v (%v)", k, v, g, ok)
			}
		}
	}
	if m := mfinal(sh); m != "" {
		t.Fail("%s", m)
	}
	t.Eval(1)
	t.Trans(int64(2*n + 1))
}

func overlaps(tier string, yield func(string, func(*mc.T)) bool) bool {
	max := 3
	if tier == "thorough" {
		max = 5
	}
	for n := 1; n <= max; n++ {
		for _, d := range []struct {
			name string
			f    func(sh *shared)
		}{
			{"nothing", func(sh *shared) {}},
			{"registering", func(sh *shared) { sh.slots[0].register() }},
			{"unregistering", func(sh *shared) {
				s := sh.slots[2]
				metrics.Unregister(s.cs()...)
				s.in = false
			}},
			{"processing", func(sh *shared) { say(sh.slots[3].p, evA) }},
			{"making a pipeline", func(sh *shared) {
				sh.slots[4] = mpipe("new")
				sh.slots[4].register()
			}},
		} {
			n, d := n, d
			if !yield(fmt.Sprintf("%d scrapes at the same time, meanwhile %s", n, d.name), func(t *mc.T) {
				for _, order := range perms(n) {
					t.Atf(fmt.Sprintf("let go in order %v", order))
					overlap(t, n, order, d.f)
					t.Outcome(fmt.Sprint(n, d.name, order))
				}
			}) {
				return false
			}
		}
	}
	return true
}
