// C24: embedding entry points agree with the library and never crash the host.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/lowercase"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	"verif/mc"
)

var scratch = os.Getenv("VERIF_SCRATCH")

// vline is the processor that the library under test has too.
type vline struct{}

type vlineConfig struct{}

func (vline) Config() vlineConfig { return vlineConfig{} }

func (vline) Process(e processor.Event) error {
	v := e.Get("line")
	if v == nil || v.String == "" {
		return nil
	}
	switch v.String[0] {
	case 'D':
		e.Drop()
	case 'C':
		e.Cancel()
	case 'F':
		return errors.New("vline failed")
	case 'M':
		return processor.ErrorKeyMissing{Key: "vline"}
	}
	return nil
}

func init() {
	registry.MustRegister("vline", func(vlineConfig) (*vline, error) { return &vline{}, nil })
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "c24:", err)
		os.Exit(3)
	}
}

// call of the library.
type call struct {
	load bool
	text string
}

func (c call) String() string {
	if c.load {
		return "Load(" + mc.Short(c.text) + ")"
	}
	return "Process(" + mc.Short(c.text) + ")"
}

// lib is the reference: what the Go library does.
type lib struct {
	cur    *pipeline.Pipeline
	loaded bool // a load has succeeded
	lost   bool // the last load was refused for its definition (valid JSON)
}

func decodeDef(text string) (*pipeline.Pipeline, error, bool) {
	var c *pipeline.Config
	if err := json.Unmarshal([]byte(text), &c); err != nil {
		return nil, err, false
	}
	p, err := pipeline.New(c)
	return p, err, true
}

func (l *lib) load(text string) bool {
	p, err, syntax := decodeDef(text)
	if err != nil {
		if syntax {
			l.lost = true
		}
		return false
	}
	l.cur, l.loaded, l.lost = p, true, false
	return true
}

// process returns the JSON text or an error.
func libProcess(p *pipeline.Pipeline, text string) (string, error) {
	var e *event.Event
	if err := json.Unmarshal([]byte(text), &e); err != nil {
		return "", err
	}
	if p == nil {
		return "", errors.New("no pipeline")
	}
	out, err := p.Process(e)
	if err != nil {
		return "", err
	}
	data, err := json.Marshal(out)
	return string(data), err
}

type host struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

func newHost() *host {
	h := &host{cmd: exec.Command(filepath.Join(scratch, "driver")), err: &bytes.Buffer{}}
	h.cmd.Env = []string{"PATH=/usr/bin:/bin", "GOMAXPROCS=1", "GOTRACEBACK=single"}
	h.cmd.Stderr = h.err
	r, w, err := os.Pipe()
	must(err)
	h.cmd.ExtraFiles = []*os.File{w}
	h.in, err = h.cmd.StdinPipe()
	must(err)
	must(h.cmd.Start())
	w.Close()
	h.out = bufio.NewReader(r)
	return h
}

func (h *host) stop() {
	h.in.Close()
	done := make(chan struct{})
	go func() { h.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		h.cmd.Process.Kill()
		<-done
	}
}

// do makes one call; crashed is set if the host ended.
func (h *host) do(t *mc.T, c call) (rc int32, text string, null, crashed bool) {
	t.Trans(1)
	kind := byte('P')
	if c.load {
		kind = 'L'
	}
	b := append([]byte{kind}, 0, 0, 0, 0)
	binary.LittleEndian.PutUint32(b[1:], uint32(len(c.text)))
	b = append(b, c.text...)
	if _, err := h.in.Write(b); err != nil {
		return 0, "", false, true
	}
	k, err := h.out.ReadByte()
	if err != nil {
		return 0, "", false, true
	}
	switch k {
	case 'L':
		if binary.Read(h.out, binary.LittleEndian, &rc) != nil {
			return 0, "", false, true
		}
	case 'P':
		var n uint32
		if binary.Read(h.out, binary.LittleEndian, &n) != nil {
			return 0, "", false, true
		}
		buf := make([]byte, n)
		if _, err := io.ReadFull(h.out, buf); err != nil {
			return 0, "", false, true
		}
		text = string(buf)
	case 'N':
		null = true
	case 'M':
		t.Fail("the call before %v changed its argument", c)
	}
	return
}

func (h *host) crash() string {
	h.stop()
	s := h.err.String()
	if len(s) > 300 {
		s = s[:300]
	}
	return fmt.Sprintf("%v; %s", h.cmd.ProcessState, s)
}

// step makes a call and compares; false if the host is gone for a known reason.
func step(t *mc.T, h *host, l *lib, c call) bool {
	if c.load {
		want := l.load(c.text)
		rc, _, _, crashed := h.do(t, c)
		if crashed {
			t.Fail("%v terminated the host: %s", c, h.crash())
		}
		if (rc == 0) != want {
			t.Fail("%v returned %d; the library accepts the definition: %v", c, rc, want)
		}
		return true
	}
	want, err := libProcess(l.cur, c.text)
	_, got, null, crashed := h.do(t, c)
	if crashed {
		detail := h.crash()
		nilDeref := strings.Contains(detail, "invalid memory address or nil pointer dereference")
		switch {
		case nilDeref && !l.loaded && t.KnownFinding("process-before-load"):
			return false
		case nilDeref && l.loaded && l.lost && t.KnownFinding("failed-load-drops-pipeline"):
			return false
		}
		t.Fail("%v terminated the host: %s", c, detail)
	}
	if null {
		t.Fail("%v returned NULL", c)
	}
	if err != nil {
		if got == "" || isContainer(got) {
			t.Fail("%v returned %s, want an error message (%v)", c, mc.Short(got), err)
		}
		return true
	}
	if !sameJSON(got, want, true) {
		t.Fail("%v returned %s, the library returns %s", c, mc.Short(got), mc.Short(want))
	}
	return true
}

func isContainer(s string) bool {
	var v interface{}
	if json.Unmarshal([]byte(s), &v) != nil {
		return false
	}
	_, ok := v.(map[string]interface{})
	return ok || v == nil
}

func sameJSON(a, b string, exact bool) bool {
	if a == b {
		return true
	}
	x, err := decode(a, exact)
	if err != nil {
		return false
	}
	y, err := decode(b, exact)
	return err == nil && equal(x, y)
}

func decode(s string, exact bool) (v interface{}, err error) {
	d := json.NewDecoder(strings.NewReader(s))
	if exact {
		d.UseNumber()
	}
	if err = d.Decode(&v); err == nil && d.More() {
		err = errors.New("more than one value")
	}
	return
}

func equal(a, b interface{}) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !equal(v, w) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case json.Number:
		y, ok := b.(json.Number)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		f, e1 := x.Float64()
		g, e2 := y.Float64()
		return e1 == nil && e2 == nil && f == g && math.Abs(f) < 1<<53
	}
	return a == b
}

const probe = `{"u":"ABC","line":"x"}`

var loads = []string{
	`{"id":"a","processors":[{"lowercase":{"field":"u"}}]}`,
	`{"id":"b","processors":[{"vline":{}},{"lowercase":{"field":"u","target_field":"v.w","ignore_missing":true}}]}`,
	`{"id":"c","processors":[{"lowercase":{"field":"u"}}],"on_failure":[{"lowercase":{"field":"z","ignore_failure":true}}]}`,
	`{"id":"a","processors":[`,
	`{"id":"a","processors":[{"nosuch":{}}]}`,
	`null`,
	`{}`,
	`[]`,
	``,
	`{"id":"a","processors":[{"lowercase":{}}]}`,
	`{"id":"a","processors":{"lowercase":{"field":"u"}}}`,
}

var processes = []string{
	probe,
	`{"u":"ABC","line":"D"}`,
	`{"line":"F"}`,
	`{}`,
	`null`,
	`{"u":`,
	``,
	`[1]`,
	`{"u":{"u":"X"},"n":18446744073709551615,"m":-9223372036854775808,"f":1.5,"a":[null,true,"<&>\u2028\ud83d\ude00"]}`,
}

func alphabet(nl, np int) (out []call) {
	for _, s := range loads[:nl] {
		out = append(out, call{true, s})
	}
	for _, s := range processes[:np] {
		out = append(out, call{false, s})
	}
	return
}

// history runs calls in a fresh host. It returns how many calls were made.
func history(t *mc.T, seq []call) int {
	t.At(func() string { return fmt.Sprint(seq) })
	h := newHost()
	defer h.stop()
	l := &lib{}
	for i, c := range seq {
		if !step(t, h, l, c) {
			t.Count("histories_ended_by_known_findings", 1)
			return i + 1
		}
	}
	t.Eval(1)
	t.Trace(1)
	t.Sample(func() string { return fmt.Sprint(seq) })
	id := "none"
	if l.cur != nil {
		id = l.cur.ID()
	}
	t.State(fmt.Sprint(id, l.loaded, l.lost))
	t.Outcome(fmt.Sprint(seq))
	return len(seq)
}

// explore runs all histories of exactly depth calls that extend prefix. A history
// cut short by a known finding is not extended.
func explore(t *mc.T, alpha []call, prefix []call, depth int) {
	idx := make([]int, depth-len(prefix))
	for {
		seq := append([]call(nil), prefix...)
		for _, i := range idx {
			seq = append(seq, alpha[i])
		}
		n := history(t, seq) - len(prefix)
		// Advance at the last call made.
		if n > len(idx) {
			n = len(idx)
		}
		if n <= 0 {
			return
		}
		for k := n; k < len(idx); k++ {
			idx[k] = 0
		}
		k := n - 1
		for ; k >= 0; k-- {
			if idx[k]++; idx[k] < len(alpha) {
				break
			}
			idx[k] = 0
		}
		if k < 0 {
			return
		}
	}
}

var tokens = []string{"{", "}", "[", "]", ":", ",", `"u"`, `"u.v"`, "1", "-0", "1e400", "null", "true", `"\ud800"`, "\"\xff\"", " "}

func words(alpha []string, n int, f func(string)) {
	var rec func(i int, s string)
	rec = func(i int, s string) {
		if i == n {
			f(s)
			return
		}
		for _, a := range alpha {
			rec(i+1, s+a)
		}
	}
	rec(0, "")
}

// texts enumerates event texts.
func values(depth int) (out []string) {
	leaves := []string{"null", "true", "0", "-1", "1.5", "1e3", "9007199254740993", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "1e308", `""`, `"A"`, `"a\"\\\/\b\n\u0000"`, `"é\ud83d\ude00\ud800"`, "{}", "[]"}
	if depth == 0 {
		return leaves
	}
	sub := values(depth - 1)
	out = append(out, leaves...)
	for _, s := range sub {
		out = append(out, `{"k":`+s+`}`, `[`+s+`]`, `{"":`+s+`,"a.b":1,"k":"K"}`, `[1,`+s+`,[]]`)
	}
	return
}

func units(tier string, yield func(string, func(*mc.T)) bool) {
	th := tier == "thorough"
	ok := true
	y := func(k string, f func(*mc.T)) {
		if ok {
			ok = yield(k, f)
		}
	}
	full := alphabet(len(loads), len(processes))
	depth := 3
	// All histories over the whole alphabet.
	for d := 1; d <= depth; d++ {
		d := d
		for _, a := range full {
			a := a
			if d == 1 {
				y("history "+a.String(), func(t *mc.T) { history(t, []call{a}) })
				continue
			}
			y(fmt.Sprintf("histories of %d from %v", d, a), func(t *mc.T) { explore(t, full, []call{a}, d) })
		}
	}
	// Deeper over a smaller one.
	small := []call{{true, loads[0]}, {true, loads[1]}, {true, loads[3]}, {true, loads[4]}, {false, processes[0]}, {false, processes[1]}, {false, processes[2]}, {false, processes[5]}}
	d2 := 4
	if th {
		d2 = 5
	}
	for _, a := range small {
		for _, b := range small {
			a, b := a, b
			y(fmt.Sprintf("deep histories from %v, %v", a, b), func(t *mc.T) { explore(t, small, []call{a, b}, d2) })
		}
	}
	// Long histories in one host: every pair of calls follows every loaded pipeline.
	safe := append([]call(nil), full...)
	for li := 0; li < 3; li++ {
		for ci := range safe {
			li, ci := li, ci
			y(fmt.Sprintf("chains %d %v", li, safe[ci]), func(t *mc.T) {
				h := newHost()
				defer func() { h.stop() }()
				l := &lib{}
				var log []string
				t.At(func() string { return strings.Join(log, "; ") })
				for _, c2 := range safe {
					for _, c := range []call{{true, loads[li]}, safe[ci], c2, {false, probe}} {
						if len(log) > 40 {
							log = log[20:]
						}
						log = append(log, c.String())
						if !step(t, h, l, c) {
							h = newHost()
							l = &lib{}
							log = nil
							break
						}
					}
					t.Eval(1)
				}
			})
		}
	}
	// Texts of events through every pipeline.
	n := 4
	vd := 2
	if th {
		n, vd = 5, 3
	}
	for li := 0; li < 3; li++ {
		li := li
		sweep := func(t *mc.T, each func(f func(string))) {
			h := newHost()
			defer h.stop()
			l := &lib{}
			step(t, h, l, call{true, loads[li]})
			each(func(s string) {
				c := call{false, s}
				t.At(c.String)
				step(t, h, l, c)
				t.Eval(1)
				t.Outcome(s)
			})
		}
		for _, first := range tokens {
			first := first
			y(fmt.Sprintf("tokens %d %q", li, first), func(t *mc.T) {
				sweep(t, func(f func(string)) {
					for k := 0; k < n; k++ {
						words(tokens, k, func(s string) { f(first + s); f(`{"u":` + first + s + "}") })
					}
				})
			})
		}
		y(fmt.Sprintf("values %d", li), func(t *mc.T) {
			sweep(t, func(f func(string)) {
				for _, v := range values(vd) {
					for _, s := range []string{v, `{"u":` + v + `}`, `{"u":"U","line":"x","k":` + v + `}`, `{"line":` + v + `,"u":"A"}`, ` {"u":"É` + strings.Repeat("Z", len(v)) + `"} `, v + v} {
						f(s)
					}
				}
			})
		})
		y(fmt.Sprintf("code points %d", li), func(t *mc.T) {
			step := 1
			if !th {
				step = 7
			}
			sweep(t, func(f func(string)) {
				for r := 0; r < 0x11000; r += step {
					f(fmt.Sprintf(`{"u":"a\u%04xB","x%c":1}`, r&0xffff, rune(r)))
				}
			})
		})
		y(fmt.Sprintf("large %d", li), func(t *mc.T) {
			max := 1 << 20
			if th {
				max = 1 << 24
			}
			sweep(t, func(f func(string)) {
				for k := 1; k <= max; k *= 4 {
					f(`{"u":"` + strings.Repeat("X", k) + `"}`)
					f(strings.Repeat("x", k))
					if k <= 1<<16 {
						f(`{"u":"A","a":[` + strings.Repeat("1,", k) + `1]}`)
						f(strings.Repeat("[", k))
						f(`{"u":"A","a":` + strings.Repeat("[", k) + strings.Repeat("]", k) + `}`)
						f(`{"u":"A","a":` + strings.Repeat(`{"a":`, k) + "1" + strings.Repeat("}", k) + `}`)
					}
				}
				for _, k := range []int{9990, 9998, 9999, 10000, 10001} {
					f(`{"a":` + strings.Repeat("[", k) + strings.Repeat("]", k) + `,"u":"A"}`)
				}
			})
		})
	}
	// Texts of definitions.
	dn := 3
	if th {
		dn = 4
	}
	deftokens := append([]string{`"id"`, `"processors"`, `"x"`, `"lowercase"`, `"on_failure"`}, tokens...)
	for _, first := range deftokens {
		first := first
		y(fmt.Sprintf("definition tokens %q", first), func(t *mc.T) {
			h := newHost()
			defer h.stop()
			l := &lib{}
			test := func(s string) {
				t.Atf("Load(" + mc.Short(s) + ")")
				step(t, h, l, call{true, s})
				if !l.lost && l.loaded {
					step(t, h, l, call{false, probe})
				}
				t.Eval(1)
				t.Outcome(s)
			}
			for k := 0; k < dn; k++ {
				words(deftokens, k, func(s string) { test(first + s) })
			}
			for k := 0; k < dn-1; k++ {
				words(deftokens, k, func(s string) {
					test(`{"id":"x","processors":[{"lowercase":{"field":"u"},` + first + s + `}]}`)
					test(`{"id":"x","processors":[{"lowercase":{"field":` + first + s + `}}]}`)
					test(`{"id":` + first + s + `,"processors":[{"lowercase":{"field":"u"}}]}`)
					test(`{"id":"x","processors":` + first + s + `}`)
				})
			}
		})
	}
	// Definitions with one or two members of unusual values.
	for _, m := range members {
		m := m
		y("definition members "+m, func(t *mc.T) {
			h := newHost()
			defer h.stop()
			l := &lib{}
			memberDefs(m, pick(th, 3, 1), func(s string) {
				t.Atf("Load(" + mc.Short(s) + ")")
				step(t, h, l, call{true, s})
				if !l.lost && l.loaded {
					step(t, h, l, call{false, probe})
				}
				t.Eval(1)
				t.Outcome(s)
			})
		})
	}
	wasmUnits(th, y)
}

func pick(th bool, q, t int) int {
	if th {
		return t
	}
	return q
}

// members of a definition; those with a dot are the processor's.
var members = []string{"id", "description", "processors", "on_failure", "nosuch", ".id", ".if", ".on_failure", ".field", ".target_field", ".ignore_missing", ".ignore_failure", ".nosuch", "."}

var memberValues = []string{"null", `""`, `" "`, `"x"`, `"="`, `"u"`, `"u."`, "0", "-1", "1.5", "1e400", "18446744073709551616", "true", "false", "[]", "[null]", "[[]]", "[{}]", `[""]`, "{}", `{"":null}`, `{"lowercase":null}`, `[{"lowercase":null}]`, `[{"lowercase":{}}]`, `[{"lowercase":{"field":"u"}}]`, `[{"lowercase":{"field":"u"}},null]`, `[{"":{}}]`, `[{"lowercase":{"field":"u"},"x":null}]`, `"\ud800"`, `"\u0000"`, `"${x}"`, `"${"`}

// memberDefs makes every definition in which member m has an unusual value, and
// one in part of those in which another has one too.
func memberDefs(m string, part int, f func(string)) {
	def := func(set map[string]string) string {
		write := func(o map[string]string) string {
			var b strings.Builder
			for _, k := range []string{"id", "description", "processors", "on_failure", "nosuch", "if", "field", "target_field", "ignore_missing", "ignore_failure"} {
				if v, ok := o[k]; ok {
					fmt.Fprintf(&b, ",%q:%s", k, v)
				}
			}
			return "{" + strings.TrimPrefix(b.String(), ",") + "}"
		}
		top, inner := map[string]string{"id": `"x"`}, map[string]string{"field": `"u"`}
		opts := ""
		for k, v := range set {
			switch {
			case k == ".":
				opts = v
			case k[0] == '.':
				inner[k[1:]] = v
			default:
				top[k] = v
			}
		}
		if opts == "" {
			opts = write(inner)
		}
		if _, ok := top["processors"]; !ok {
			top["processors"] = `[{"lowercase":` + opts + `},{"lowercase":{"field":"u"}}]`
		}
		return write(top)
	}
	for i, v := range memberValues {
		f(def(map[string]string{m: v}))
		for _, m2 := range members {
			if m2 <= m {
				continue
			}
			for j, v2 := range memberValues {
				if (i+j)%part == 0 {
					f(def(map[string]string{m: v, m2: v2}))
				}
			}
		}
	}
}

// --- WebAssembly ---

type wcall struct {
	args []interface{} // strings or map{"odd": name}
}

func (w wcall) String() string {
	b, _ := json.Marshal(w.args)
	return "pipeline_execute" + mc.Short(string(b))
}

// wasmRun makes the calls in one instance and returns one reply each.
func wasmRun(t *mc.T, calls []wcall) {
	dir, err := os.MkdirTemp(scratch, "wasm-")
	must(err)
	defer os.RemoveAll(dir)
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, c := range calls {
		must(enc.Encode(c.args))
	}
	must(os.WriteFile(filepath.Join(dir, "in"), in.Bytes(), 0o600))
	cmd := exec.Command("node", "--stack-size=4000", filepath.Join(scratch, "driver.js"), filepath.Join(scratch, "pipeline.wasm"), filepath.Join(dir, "in"), filepath.Join(dir, "out"))
	cmd.Dir = scratch
	var errb bytes.Buffer
	cmd.Stderr = &errb
	done := make(chan error, 1)
	must(cmd.Start())
	go func() { done <- cmd.Wait() }()
	var runErr error
	for i := 0; ; i++ {
		select {
		case runErr = <-done:
		case <-time.After(time.Second):
			t.Trans(0)
			t.Eval(0)
			if i > 100 {
				cmd.Process.Kill()
				<-done
				runErr = errors.New("no end within 100 s")
			} else {
				continue
			}
		}
		break
	}
	f, err := os.Open(filepath.Join(dir, "out"))
	if err != nil {
		t.Fail("the module does not start: %v %s", runErr, errb.String())
	}
	defer f.Close()
	r := bufio.NewReader(f)
	for i, c := range calls {
		i, c := i, c
		t.At(func() string {
			from := i - 3
			if from < 0 {
				from = 0
			}
			return fmt.Sprintf("call %d of %d in one instance: ... %v", i+1, len(calls), calls[from:i+1])
		})
		t.Trans(1)
		line, err := r.ReadString('\n')
		if err != nil {
			t.Fail("no reply to %v: %v %v %s", c, err, runErr, mc.Short(errb.String()))
		}
		var rep struct {
			S *string         `json:"s"`
			U int             `json:"u"`
			O json.RawMessage `json:"o"`
			X *string         `json:"x"`
		}
		must(json.Unmarshal([]byte(line), &rep))
		if rep.X != nil {
			if len(calls) == 1 && strings.Contains(c.String(), `"odd\":\"big\"`) && t.KnownFinding("wasm-bigint") {
				t.Eval(1)
				return
			}
			t.Fail("%v: the module failed: %s", c, *rep.X)
		}
		want, werr := wasmRef(c)
		switch {
		case werr != nil:
			if rep.S == nil || *rep.S == "" || isContainer(*rep.S) {
				t.Fail("%v returned %s, want an error message (%v)", c, mc.Short(line), werr)
			}
		default:
			got := string(rep.O)
			if rep.S != nil {
				got = *rep.S // text is as good as an object
			}
			if !sameJSON(got, want, false) {
				t.Fail("%v returned %s, the library returns %s", c, mc.Short(line), mc.Short(want))
			}
		}
		t.Eval(1)
		t.Trace(1)
		t.Outcome(line)
		t.Sample(func() string { return fmt.Sprintf("%v -> %s", c, mc.Short(line)) })
	}
}

func wasmRef(c wcall) (string, error) {
	if len(c.args) != 2 {
		return "", errors.New("not two arguments")
	}
	var s [2]string
	for i, a := range c.args {
		x, ok := a.(string)
		if !ok {
			return "", errors.New("not text")
		}
		s[i] = x
	}
	p, err, _ := decodeDef(s[0])
	if err != nil {
		return "", err
	}
	return libProcess(p, s[1])
}

func wasmUnits(th bool, y func(string, func(*mc.T))) {
	wl := append([]string{`{"id":"d","processors":[{"lowercase":{"field":"u","target_field":"v.w","ignore_missing":true}}]}`,
		`{"id":"e","processors":[{"lowercase":{"field":"x"}}],"on_failure":[{"lowercase":{"field":"u"}}]}`}, loads...)
	wl = append(wl[:3:3], wl[4:]...) // the one with vline is not for this module
	y("wasm calls", func(t *mc.T) {
		// All pairs of calls over all argument pairs, in one instance.
		var all []wcall
		for _, p := range wl {
			for _, e := range processes {
				all = append(all, wcall{[]interface{}{p, e}})
			}
		}
		step := 5
		if th {
			step = 1
		}
		var seq []wcall
		for i := range all {
			for j := i % step; j < len(all); j += step {
				seq = append(seq, all[i], all[j])
			}
		}
		wasmRun(t, seq)
	})
	y("wasm arguments", func(t *mc.T) {
		odd := []interface{}{loads[0], probe, "", "x", "null"}
		for _, o := range []string{"undef", "nan", "sym", "fn", "obj", "arr", "nul", "num", "yes"} {
			odd = append(odd, map[string]string{"odd": o})
		}
		var seq []wcall
		seq = append(seq, wcall{[]interface{}{}})
		for _, a := range odd {
			seq = append(seq, wcall{[]interface{}{a}})
			for _, b := range odd {
				seq = append(seq, wcall{[]interface{}{a, b}}, wcall{[]interface{}{loads[0], probe}})
				seq = append(seq, wcall{[]interface{}{a, b, loads[0]}}, wcall{[]interface{}{loads[0], probe, a, b}})
			}
		}
		wasmRun(t, seq)
	})
	y("wasm big integers", func(t *mc.T) {
		big := map[string]string{"odd": "big"}
		wasmRun(t, []wcall{{[]interface{}{big, probe}}})
		wasmRun(t, []wcall{{[]interface{}{loads[0], big}}})
	})
	n := 3
	vd := 1
	if th {
		n, vd = 4, 2
	}
	jstok := tokens[:0:0]
	for _, s := range tokens {
		if s != "\"\xff\"" {
			jstok = append(jstok, s)
		}
	}
	for i, p := range wl[:3] {
		p := p
		y(fmt.Sprintf("wasm tokens %d", i), func(t *mc.T) {
			var seq []wcall
			for k := 0; k <= n-1; k++ {
				words(jstok, k, func(s string) {
					seq = append(seq, wcall{[]interface{}{p, s}}, wcall{[]interface{}{p, `{"u":` + s + `}`}})
				})
			}
			wasmRun(t, seq)
		})
		y(fmt.Sprintf("wasm values %d", i), func(t *mc.T) {
			var seq []wcall
			for _, v := range values(vd) {
				for _, s := range []string{v, `{"u":` + v + `}`, `{"u":"U","k":` + v + `}`, ` {"u":"É` + strings.Repeat("Z", len(v)) + `"} `, v + v} {
					seq = append(seq, wcall{[]interface{}{p, s}})
				}
			}
			for r := 0; r < 0xffff; r += 31 {
				if r&^0x7ff != 0xd800 {
					seq = append(seq, wcall{[]interface{}{p, fmt.Sprintf(`{"u":"a\u%04xB","x%c":1}`, r, rune(r|0x10000))}})
				}
			}
			for _, k := range []int{10, 100, 1000, 2000} {
				seq = append(seq, wcall{[]interface{}{p, `{"u":"A","a":` + strings.Repeat("[", k) + strings.Repeat("]", k) + `}`}})
				seq = append(seq, wcall{[]interface{}{p, `{"u":"A","a":` + strings.Repeat(`{"a":`, k) + "1" + strings.Repeat("}", k) + `}`}})
				seq = append(seq, wcall{[]interface{}{p, strings.Repeat("[", k*100)}})
				seq = append(seq, wcall{[]interface{}{p, `{"u":"` + strings.Repeat("X", k*100) + `"}`}})
			}
			wasmRun(t, seq)
		})
	}
	for _, m := range members {
		m := m
		y("wasm definition members "+m, func(t *mc.T) {
			var seq []wcall
			memberDefs(m, pick(th, 7, 3), func(s string) {
				seq = append(seq, wcall{[]interface{}{s, probe}})
			})
			wasmRun(t, seq)
		})
	}
	y("wasm definitions", func(t *mc.T) {
		deftokens := append([]string{`"id"`, `"processors"`, `"x"`, `"lowercase"`, `"on_failure"`}, jstok...)
		var seq []wcall
		for k := 0; k < n-1; k++ {
			words(deftokens, k, func(s string) {
				for _, d := range []string{s, `{"id":"x","processors":[{"lowercase":{"field":"u"},` + s + `}]}`, `{"id":"x","processors":[{"lowercase":{"field":` + s + `}}]}`, `{"id":` + s + `,"processors":[{"lowercase":{"field":"u"}}]}`, `{"id":"x","processors":` + s + `}`} {
					seq = append(seq, wcall{[]interface{}{d, probe}})
				}
			})
		}
		wasmRun(t, seq)
	})
}

func main() {
	mc.Main(&mc.Check{
		ID: "C24", Level: "model_checking",
		Rule:        "a case is a history of Load and Process calls in a fresh host process that links the C library (or of calls in one instance of the WebAssembly module under node), each reply compared with the Go library's; states are the pipeline in force and whether loads failed",
		Units:       units,
		HangSeconds: 120,
		Bounds: func(tier string) map[string]interface{} {
			if tier == "thorough" {
				return map[string]interface{}{"calls (20)": 3, "calls (8)": 5, "event text tokens": 5, "value depth": 3, "definition tokens": 4}
			}
			return map[string]interface{}{"calls (20)": 3, "calls (8)": 4, "event text tokens": 4, "value depth": 2, "definition tokens": 3}
		},
		Assumptions: []string{"vline, a processor linked into the C library for the check, drops, cancels or fails by a field of the event", "numbers returned by the WebAssembly function are JavaScript numbers"},
	})
}
