// C28: profiling and metrics leave the tool's work as it is.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	dto "github.com/prometheus/client_model/go"
	"github.com/prometheus/common/expfmt"

	"verif/mc"
	. "verif/tool"
)

func pick(tier string, q, th int) int {
	if tier == "thorough" {
		return th
	}
	return q
}

var port = 20000

// freeHost is an address that only this process uses.
func freeHost() string {
	pid := os.Getpid()
	port++
	if port > 60000 {
		port = 20001
	}
	return fmt.Sprintf("127.%d.%d.%d:%d", 64+pid>>16&63, pid>>8&255, pid&255, port)
}

// A target is what a profile is written to.
type target struct {
	name string
	bad  bool // cannot be created or written
	path func(dir, name string) string
}

var targets = []target{
	{"no profile", false, nil},
	{"a new file", false, func(dir, name string) string { return filepath.Join(dir, name) }},
	{"a long file", false, func(dir, name string) string {
		p := filepath.Join(dir, name)
		Must(os.WriteFile(p, bytes.Repeat([]byte("old content\n"), 100000), 0o644))
		return p
	}},
	{"a file in a missing directory", true, func(dir, name string) string { return filepath.Join(dir, "missing", name) }},
	{"a directory", true, func(dir, name string) string { return dir }},
	{"a full device", true, func(dir, name string) string { return "/dev/full" }},
}

// whole tells whether a file is one complete profile that has the sample type.
func whole(path, sample string) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		return err
	}
	b, err := io.ReadAll(z)
	if err != nil {
		return err
	}
	// The fields of message Profile.
	var types int
	var table []string
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return errors.New("not a profile")
		}
		b = b[n:]
		x, n := binary.Uvarint(b)
		if n <= 0 {
			return errors.New("not a profile")
		}
		b = b[n:]
		switch tag & 7 {
		case 0:
		case 2:
			if uint64(len(b)) < x {
				return io.ErrUnexpectedEOF
			}
			switch tag >> 3 {
			case 1:
				types++
			case 6:
				table = append(table, string(b[:x]))
			}
			b = b[x:]
		default:
			return errors.New("not a profile")
		}
	}
	if types == 0 || len(table) == 0 || table[0] != "" {
		return errors.New("not a profile")
	}
	for _, s := range table {
		if s == sample {
			return nil
		}
	}
	return fmt.Errorf("a profile without %s", sample)
}

type input struct {
	name string
	data []byte
	end  int
}

func inputs() []input {
	var many bytes.Buffer
	kinds := []string{"a\n", "\n", "F\n", "D\n", "C x\n", "Nan\n", "M\n"}
	for x := 0; x < 3000; x++ {
		many.WriteString(kinds[x%len(kinds)])
	}
	return []input{
		{"nothing", nil, EOF}, {"one line", []byte("a\n"), EOF}, {"every kind", []byte(strings.Join(kinds, "")), EOF}, {"many lines", many.Bytes(), EOF},
		{"a read failure", []byte("a\nF\nb\n"), Reset},
	}
}

var seq int

func profiles(t *mc.T, d *Def, in input, cpu, mem *target) {
	t.Atf(fmt.Sprintf("pipeline %s, input %s, CPU profile to %s, memory profile to %s", d.Name, in.name, cpu.name, mem.name))
	t.Eval(1)
	seq++
	dir := filepath.Join(Scratch, fmt.Sprintf("p%d-%d", os.Getpid(), seq))
	Must(os.Mkdir(dir, 0o755))
	defer os.RemoveAll(dir)
	args := []string{"-p", DefFile(d), "-metrics-addr", freeHost()}
	bad := false
	files := map[string]string{}
	for _, x := range []struct {
		tg           *target
		flag, sample string
	}{{cpu, "cpuprofile", "cpu"}, {mem, "memprofile", "inuse_space"}} {
		if x.tg.path == nil {
			continue
		}
		p := x.tg.path(dir, x.flag+".out")
		args = append(args, "-"+x.flag, p)
		files[p] = x.sample
		bad = bad || x.tg.bad
	}
	var chunks [][]byte
	if len(in.data) > 0 {
		chunks = [][]byte{in.data}
	}
	r := Exec(t, args, chunks, in.end, nil)
	t.Outcome(fmt.Sprint(d.Name, in.name, r.Code != 0, bad, len(files)))
	t.Trace(1)
	if bad {
		if r.Code == 0 || r.Stderr == "" {
			t.Fail("the profile cannot be written, but the exit code is %d and stderr %s", r.Code, mc.Short(r.Stderr))
		}
		return
	}
	Check(t, r, Expect(d, in.data), in.end == Reset)
	if in.end == Reset {
		return
	}
	for p, sample := range files {
		if err := whole(p, sample); err != nil {
			t.Fail("%s: %v", filepath.Base(p), err)
		}
	}
}

// counts is what a processor has dealt with.
type counts struct {
	kind                            string
	received, sent, failed, dropped int
}

// after is the reference: the counts of the processors after an input.
func after(d *Def, lines []string) (out []string) {
	var l []counts
	stage := func(k string) int { l = append(l, counts{kind: k}); return len(l) - 1 }
	var before, line, in, post, glob = -1, -1, -1, []int{}, -1
	switch d.Name {
	case "plain":
		line = stage("vline")
	case "set":
		line, post = stage("vline"), []int{stage("set"), stage("set")}
	case "handler":
		line, in, post = stage("vline"), stage("set"), []int{stage("set")}
	case "global":
		line, post, glob = stage("vline"), []int{stage("set")}, stage("set")
	case "late":
		before, line, post = stage("append"), stage("vline"), []int{stage("append")}
	}
	pass := func(x int) {
		if x >= 0 {
			l[x].received++
			l[x].sent++
		}
	}
	for _, s := range lines {
		if s = strings.TrimSpace(s); s == "" {
			continue
		}
		pass(before)
		l[line].received++
		switch s[0] {
		case 'D':
			l[line].dropped++
			continue
		case 'C':
			l[line].sent++
			continue
		case 'F', 'M':
			if in < 0 {
				l[line].failed++
				pass(glob)
				continue
			}
			l[line].sent++
			pass(in)
		default:
			l[line].sent++
		}
		for _, x := range post {
			pass(x)
		}
	}
	for _, c := range l {
		out = append(out, fmt.Sprint(c))
	}
	sort.Strings(out)
	return
}

var client = &http.Client{Timeout: 20 * time.Second}

// scrape returns the counts of the processors, nil if nothing answers yet.
func scrape(t *mc.T, host string) []string {
	resp, err := client.Get("http://" + host + "/metrics")
	if err != nil {
		if errors.Is(err, syscall.ECONNREFUSED) {
			return nil
		}
		t.Fail("scraping: %v", err)
	}
	defer resp.Body.Close()
	if resp.StatusCode != 200 {
		t.Fail("scraping: %s", resp.Status)
	}
	var p expfmt.TextParser
	fams, err := p.TextToMetricFamilies(resp.Body)
	if err != nil {
		t.Fail("scraping: %v", err)
	}
	by := map[string]*counts{}
	get := func(m *dto.Metric) *counts {
		var id, typ string
		for _, l := range m.GetLabel() {
			switch l.GetName() {
			case "component_id":
				id = l.GetValue()
			case "component_type":
				typ = l.GetValue()
			}
		}
		if by[id] == nil {
			by[id] = &counts{kind: typ}
		}
		return by[id]
	}
	for name, f := range fams {
		for _, m := range f.GetMetric() {
			v := int(m.GetCounter().GetValue())
			switch name {
			case "es_component_received_events_total":
				get(m).received = v
			case "es_component_sent_events_total":
				get(m).sent = v
			case "es_component_errors_total":
				get(m).failed = v
			case "es_component_discarded_events_total":
				get(m).dropped = v
			}
		}
	}
	out := []string{}
	for _, c := range by {
		out = append(out, fmt.Sprint(*c))
	}
	sort.Strings(out)
	return out
}

// live feeds the tool line by line and scrapes it after each.
func live(t *mc.T, d *Def, lines []string, profiled bool) {
	t.At(func() string {
		return fmt.Sprintf("pipeline %s, lines %q, scraped after each, profiled %v", d.Name, lines, profiled)
	})
	t.Eval(1)
	host := freeHost()
	args := []string{"-p", DefFile(d), "-metrics-addr", host}
	if profiled {
		args = append(args, "-memprofile", filepath.Join(Scratch, fmt.Sprintf("mem%d", os.Getpid())))
	}
	var p [2]int
	Must(syscall.Pipe2(p[:], syscall.O_CLOEXEC))
	in, w := os.NewFile(uintptr(p[0]), "in"), p[1]
	var bad string
	r := Start(t, args, in, func(done chan struct{}) bool {
		defer syscall.Close(w)
		for n := 0; n <= len(lines); n++ {
			if n > 0 {
				if _, err := syscall.Write(w, []byte(lines[n-1])); err != nil {
					return true
				}
			}
			want := strings.Join(after(d, lines[:n]), " ")
			deadline := time.Now().Add(30 * time.Second)
			for {
				c := scrape(t, host)
				got := strings.Join(c, " ")
				if c != nil && got == want {
					t.Trans(1)
					break
				}
				select {
				case <-done:
					return true
				default:
				}
				if time.Now().After(deadline) {
					if c == nil {
						got = "unanswered"
					}
					bad = fmt.Sprintf("after %d lines the endpoint shows (received, sent, errors, discarded) %s, want %s", n, got, want)
					return false
				}
				time.Sleep(200 * time.Microsecond)
			}
			t.State(d.Name + want)
		}
		return false
	}, nil)
	if bad != "" {
		t.Fail("%s", bad)
	}
	Check(t, r, Expect(d, []byte(strings.Join(lines, ""))), false)
	t.Trace(1)
}

func main() {
	Init()
	mc.Main(&mc.Check{
		ID: "C28", Level: "fault_enumeration",
		Rule: "the real binary runs for every pipeline, kind of input, and pair of CPU and memory profile destinations (none, new, longer than the profile, and three that fail), and both streams, the exit status and the profile files are compared with the reference; for every pipeline and sequence of kinds of lines to a length the endpoint is scraped after each line and compared with the counters of a reference",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"destinations": len(targets), "pipelines": len(Defs), "line kinds": 7, "scraped line sequences": pick(tier, 3, 4)}
		},
		Assumptions: []string{"the counters reach the endpoint within 30 s", "what a run that fails leaves in a profile file is open", "loopback addresses are free"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			for x := range Defs {
				for _, in := range inputs() {
					for c := range targets {
						d, in, c := &Defs[x], in, c
						if !yield(fmt.Sprintf("profiles %s %s to %s", d.Name, in.name, targets[c].name), func(t *mc.T) {
							for m := range targets {
								profiles(t, d, in, &targets[c], &targets[m])
							}
						}) {
							return
						}
					}
				}
			}
			kinds := []string{"a\n", "\n", "F\n", "D\n", "C x\n", "Nan\n", "M\n"}
			for x := range Defs {
				d := &Defs[x]
				for _, k := range kinds {
					for _, k2 := range kinds {
						k, k2 := k, k2
						if !yield(fmt.Sprintf("live %s %q %q", d.Name, k, k2), func(t *mc.T) {
							live(t, d, []string{k, k2}, false)
							live(t, d, []string{k, k2}, true)
							for _, k3 := range kinds {
								live(t, d, []string{k, k2, k3}, false)
								if tier == "thorough" {
									for _, k4 := range kinds {
										live(t, d, []string{k, k2, k3, k4}, false)
									}
								}
							}
						}) {
							return
						}
					}
				}
				if !yield("live long "+d.Name, func(t *mc.T) {
					var l []string
					for i := 0; i < pick(tier, 70, 1000); i++ {
						l = append(l, kinds[(i+i/7)%7])
					}
					live(t, d, l, false)
				}) {
					return
				}
			}
		},
	})
}
