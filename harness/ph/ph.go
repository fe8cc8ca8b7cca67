// Package ph builds pipelines of script processors whose outcomes are chosen by
// the explorer while the real pipeline runs, and interprets the same pipelines
// with a reference interpreter.
package ph

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	"verif/mc"
	"verif/model"
)

// Outcome of one execution of a script processor.
type Outcome byte

const (
	OK Outcome = iota
	Fail
	Missing
	MissingWrapped
	Drop
	DropErr
	Cancel
	CancelErr // what the caller gets is not specified
	DropCancel
	CancelDrop
	DropMissing
)

func (o Outcome) String() string {
	return [...]string{"ok", "fail", "missing", "missing(wrapped)", "drop", "drop+error", "cancel", "cancel+error", "drop+cancel", "cancel+drop", "drop+missing"}[o]
}

// Node is a configured processor.
type Node struct {
	Pos           int // position in the pipeline, in prefix order
	IgnoreMissing bool
	IgnoreFailure bool
	OnFailure     []*Node
}

// Shape is a pipeline definition.
type Shape struct {
	Procs, OnFailure []*Node
	N                int
}

// MaxPos is the number of registered script processor types.
const MaxPos = 600

// Config of a script processor.
type Config struct {
	IgnoreMissing bool `config:"ignore_missing"`
	IgnoreFailure bool `config:"ignore_failure"`
}

type script struct {
	pos int
	cfg Config
}

func (s *script) Config() Config { return s.cfg }

func (s *script) Process(e processor.Event) error {
	if quiet {
		return nil
	}
	return current.execute(s.pos, e)
}

// Script processors that declare their flags in other ways.
type (
	Flag        bool
	namedConfig struct {
		Other         []string `config:"other"`
		IgnoreFailure Flag     `config:"ignore_failure"`
		IgnoreMissing Flag     `config:"ignore_missing"`
	}
	namedScript struct {
		script
		cfg namedConfig
	}
	inlineConfig struct {
		Other  map[string]int `config:"other"`
		Config `config:",inline"`
	}
	inlineScript struct {
		script
		cfg inlineConfig
	}
)

func (s *namedScript) Config() namedConfig  { return s.cfg }
func (s inlineScript) Config() inlineConfig { return s.cfg }

// TypeName of the processor at a position.
func TypeName(pos int) string { return fmt.Sprintf("vp%d", pos) }

func init() {
	for i := 0; i < MaxPos; i++ {
		i := i
		switch i % 3 {
		case 0:
			registry.MustRegister(TypeName(i), func(c Config) (*script, error) { return &script{i, c}, nil })
		case 1:
			registry.MustRegister(TypeName(i), func(c namedConfig) (*namedScript, error) { return &namedScript{script{i, Config{}}, c}, nil })
		case 2:
			registry.MustRegister(TypeName(i), func(c inlineConfig) (*inlineScript, error) { return &inlineScript{script{i, Config{}}, c}, nil })
		}
	}
	registry.MustRegister("vsame", func(c Config) (*script, error) { return &script{-1, c}, nil })
}

// Error is a failure made by a script processor.
type Error struct {
	N     int
	Cause error
}

func (e *Error) Error() string { return fmt.Sprintf("script failure %d", e.N) }
func (e *Error) Unwrap() error { return e.Cause }

// causes of failures: well-known errors that mean nothing to a pipeline.
var causes = []error{nil, event.ErrEmptyKey, event.ErrTargetKeyNotObject, event.ErrKeyExists, io.EOF, context.Canceled}

func failure(pos, step int) error {
	k := Kind
	if k < 0 {
		k = pos + step + 1
	}
	return &Error{step, causes[k%len(causes)]}
}

// errList is an error that cannot be compared.
type errList []error

func (l errList) Error() string        { return "list of " + l[0].Error() }
func (l errList) Unwrap() error        { return l[0] }
func (l errList) Is(target error) bool { return false }

// Kinds of errors: failures by cause, and missing keys that are not plain.
const Kinds = 6

// Kind is the one to make, or negative to go through them.
var Kind = -1

// errBoth is two errors at once.
type errBoth []error

func (b errBoth) Error() string   { return b[0].Error() + " and " + b[1].Error() }
func (b errBoth) Unwrap() []error { return b }

// errAlias says itself that it is a missing key.
type errAlias struct{ key string }

func (a errAlias) Error() string { return "no " + a.key }
func (a errAlias) Is(target error) bool {
	_, ok := target.(processor.ErrorKeyMissing)
	return ok
}

// Exec is one execution in a trace.
type Exec struct {
	Pos int
	Out Outcome
	Err error
}

// Run is one explored execution.
type Run struct {
	menu    func(pos, step int) []Outcome
	prefix  []int
	Choices []int
	widths  []int
	Trace   []Exec
	limit   int
}

var current *Run

type overrun struct{ n int }

func (r *Run) execute(pos int, e processor.Event) error {
	step := len(r.Trace)
	if step >= r.limit {
		panic(fmt.Sprintf("more than %d processor executions for one event", r.limit))
	}
	m := r.menu(pos, step)
	c := 0
	if step < len(r.prefix) {
		c = r.prefix[step]
		if c >= len(m) {
			panic("replayed choice out of range: the execution diverged")
		}
	}
	r.Choices = append(r.Choices, c)
	r.widths = append(r.widths, len(m))
	o := m[c]
	// Every execution leaves a mark in the event, failing or not.
	if _, err := e.Put(fmt.Sprintf("mark.s%d", step), event.Integer(int64(pos))); err != nil {
		panic(err)
	}
	gone := fmt.Sprintf("mark.d%d", step)
	if _, err := e.Put(gone, event.Bool(true)); err != nil {
		panic(err)
	}
	x := Exec{Pos: pos, Out: o}
	switch o {
	case Fail:
		x.Err = failure(pos, step)
		if (pos+step)%2 == 1 {
			x.Err = errList{x.Err}
		}
	case Missing:
		x.Err = processor.ErrorKeyMissing{Key: fmt.Sprintf("k%d", step)}
	case MissingWrapped:
		// Wrapped once, twice or three times, or a missing key in another way.
		key := fmt.Sprintf("k%d", step)
		m := processor.ErrorKeyMissing{Key: key}
		k := Kind
		if k < 0 {
			k = (pos + step + 1) % Kinds
		}
		switch k {
		case 0:
			x.Err = fmt.Errorf("context: %w", m)
		case 1:
			x.Err = fmt.Errorf("context: %w", errList{m})
		case 2:
			x.Err = fmt.Errorf("context: %w", errList{fmt.Errorf("context: %w", m)})
		case 3:
			x.Err = &m
		case 4:
			x.Err = errAlias{key}
		case 5:
			x.Err = errBoth{errors.New("other"), m}
		}
	case Drop:
		e.Drop()
	case DropErr:
		e.Drop()
		x.Err = failure(pos, step)
	case Cancel:
		e.Cancel()
	case CancelErr:
		e.Cancel()
		x.Err = failure(pos, step)
	case DropCancel:
		e.Drop()
		e.Cancel()
	case CancelDrop:
		e.Cancel()
		e.Drop()
	case DropMissing:
		e.Drop()
		x.Err = processor.ErrorKeyMissing{Key: fmt.Sprintf("k%d", step)}
	}
	// It goes on with the event, whatever became of it.
	old, v := e.Delete(gone), e.Get(fmt.Sprintf("mark.s%d", step))
	_, err := e.TryPut(fmt.Sprintf("mark.c%d", step), event.Integer(1))
	if was, perr := e.Put(fmt.Sprintf("mark.c%d", step), event.Integer(2)); err == nil && (perr != nil || was == nil || was.Integer != 1) {
		err = fmt.Errorf("put over the new one gave %v, %v", was, perr)
	}
	switch o {
	case Drop, DropErr, DropCancel, CancelDrop, DropMissing:
	default:
		if old == nil || v == nil || v.Integer != int64(pos) || err != nil {
			panic(fmt.Sprintf("after %v the processor gets %v and %v for fields of the event, and %v for a new one", o, old, v, err))
		}
	}
	r.Trace = append(r.Trace, x)
	return x.Err
}

// Build makes the real pipeline.
func (s *Shape) Build(id string) (*pipeline.Pipeline, error) {
	return pipeline.New(&pipeline.Config{ID: id, Processors: conf(s.Procs, ""), OnFailure: conf(s.OnFailure, "")})
}

// BuildSame makes the real pipeline with one type for all processors.
func (s *Shape) BuildSame(id string) (*pipeline.Pipeline, error) {
	return pipeline.New(&pipeline.Config{ID: id, Processors: conf(s.Procs, "vsame"), OnFailure: conf(s.OnFailure, "vsame")})
}

func conf(nodes []*Node, typ string) []pipeline.ProcessorConfig {
	var out []pipeline.ProcessorConfig
	for _, n := range nodes {
		name := typ
		if name == "" {
			name = TypeName(n.Pos)
		}
		out = append(out, pipeline.ProcessorConfig{name: &pipeline.ProcessorOptionConfig{
			OnFailure: conf(n.OnFailure, typ),
			Config:    map[string]interface{}{"ignore_missing": n.IgnoreMissing, "ignore_failure": n.IgnoreFailure},
		}})
	}
	return out
}

func (s *Shape) String() string {
	return "processors" + list(s.Procs) + " on_failure" + list(s.OnFailure)
}

func list(ns []*Node) string {
	var p []string
	for _, n := range ns {
		x := fmt.Sprintf("p%d", n.Pos)
		if n.IgnoreMissing {
			x += " ignore_missing"
		}
		if n.IgnoreFailure {
			x += " ignore_failure"
		}
		if len(n.OnFailure) > 0 {
			x += " on_failure" + list(n.OnFailure)
		}
		p = append(p, x)
	}
	return "[" + strings.Join(p, ", ") + "]"
}

// Counts of one processor.
type Counts struct{ Recv, Sent, Errs, Disc int64 }

// Ref is the reference interpreter's result for one event.
type Ref struct {
	Trace     []Exec
	Err       error // the last unrecovered error
	Dropped   bool
	Cancelled bool
	// Loose: the outcome is not specified (cancel and error at once).
	Loose    bool
	Diverged string
	D        map[int]*Counts
	in       []Exec
}

// Interpret runs the reference over the outcomes of an actual trace.
func (s *Shape) Interpret(actual []Exec) *Ref {
	r := &Ref{D: map[int]*Counts{}, in: actual}
	r.pipeline(s)
	if r.Diverged == "" && len(r.Trace) < len(actual) {
		r.Diverged = fmt.Sprintf("processor p%d ran although processing was over", actual[len(r.Trace)].Pos)
	}
	return r
}

func (r *Ref) pipeline(s *Shape) {
	var err error
	for _, p := range s.Procs {
		if err = r.exec(p); err != nil || r.Diverged != "" {
			break
		}
		if r.Dropped || r.Cancelled {
			return
		}
	}
	if err != nil && len(s.OnFailure) > 0 {
		for _, p := range s.OnFailure {
			if err = r.exec(p); err != nil || r.Diverged != "" {
				break
			}
			if r.Dropped || r.Cancelled {
				return
			}
		}
	}
	r.Err = err
}

func (r *Ref) exec(n *Node) error {
	k := len(r.Trace)
	if k >= len(r.in) {
		r.Diverged = fmt.Sprintf("processor p%d did not run", n.Pos)
		return nil
	}
	x := r.in[k]
	if x.Pos != n.Pos {
		r.Diverged = fmt.Sprintf("processor p%d ran where p%d must run", x.Pos, n.Pos)
		return nil
	}
	r.Trace = append(r.Trace, x)
	c := r.D[n.Pos]
	if c == nil {
		c = &Counts{}
		r.D[n.Pos] = c
	}
	c.Recv++
	switch x.Out {
	case OK:
		c.Sent++
		return nil
	case Drop, DropErr, DropCancel, CancelDrop, DropMissing:
		c.Disc++
		r.Dropped = true
		return nil
	case Cancel:
		c.Sent++
		r.Cancelled = true
		return nil
	case CancelErr:
		r.Cancelled, r.Loose = true, true
	}
	if n.IgnoreMissing && (x.Out == Missing || x.Out == MissingWrapped) {
		c.Sent++
		return nil
	}
	err := x.Err
	if len(n.OnFailure) > 0 {
		var herr error
		for _, h := range n.OnFailure {
			if herr = r.exec(h); herr != nil || r.Diverged != "" {
				break
			}
			if r.Dropped || r.Cancelled {
				// A handler dropped the event: so did the processor. One that
				// cancelled without error recovered it.
				if r.Dropped {
					c.Disc++
				} else {
					c.Sent++
				}
				return nil
			}
		}
		if herr == nil {
			c.Sent++
			return nil
		}
		err = herr
	}
	if n.IgnoreFailure {
		c.Sent++
		return nil
	}
	c.Errs++
	return err
}

// Result of one real execution.
type Result struct {
	Out *event.Event
	Err error
	Run *Run
	In  *event.Event
}

// Do runs one event through the real pipeline with the given choices.
func Do(p *pipeline.Pipeline, in *event.Event, menu func(pos, step int) []Outcome, prefix []int, limit int) Result {
	r := &Run{menu: menu, prefix: prefix, limit: limit}
	current = r
	out, err := p.Process(in)
	current = nil
	return Result{Out: out, Err: err, Run: r, In: in}
}

// Explore runs f for every combination of outcomes, depth first.
func Explore(f func(prefix []int) *Run) {
	prefix := []int{}
	for {
		r := f(prefix)
		if len(r.Choices) < len(prefix) {
			panic("the same choices led to a shorter execution: nondeterminism")
		}
		i := len(r.Choices) - 1
		for i >= 0 && r.Choices[i]+1 >= r.widths[i] {
			i--
		}
		if i < 0 {
			return
		}
		prefix = append(append([]int{}, r.Choices[:i]...), r.Choices[i]+1)
	}
}

// ID of the failure an error carries: the step that made it, or -1.
func failureStep(err error) int {
	var e *Error
	if errors.As(err, &e) {
		return e.N
	}
	var key string
	var m processor.ErrorKeyMissing
	var mp *processor.ErrorKeyMissing
	var a errAlias
	switch {
	case errors.As(err, &m):
		key = m.Key
	case errors.As(err, &mp):
		key = mp.Key
	case errors.As(err, &a):
		key = a.key
	}
	var n int
	if _, e := fmt.Sscanf(key, "k%d", &n); e == nil {
		return n
	}
	return -1
}

// CheckFlow compares what the caller saw with the reference.
func CheckFlow(t *mc.T, s *Shape, res Result, ref *Ref, base *model.V) {
	if ref.Diverged != "" {
		t.Fail("%s (executed: %s)", ref.Diverged, TraceString(res.Run.Trace))
	}
	if ref.Loose {
		return
	}
	switch {
	case ref.Dropped:
		if res.Out != nil || res.Err != nil {
			t.Fail("the event was dropped but the caller got event %v, error %v (executed: %s)", res.Out != nil, res.Err, TraceString(res.Run.Trace))
		}
	case ref.Err != nil:
		if res.Err == nil || res.Out != nil {
			t.Fail("want error %v and no event, got event %v, error %v (executed: %s)", ref.Err, res.Out != nil, res.Err, TraceString(res.Run.Trace))
		}
		if failureStep(res.Err) != failureStep(ref.Err) {
			t.Fail("want the last unrecovered error %q, got %q (executed: %s)", ref.Err, res.Err, TraceString(res.Run.Trace))
		}
	default:
		if res.Err != nil || res.Out == nil {
			t.Fail("want the event and no error, got event %v, error %v (executed: %s)", res.Out != nil, res.Err, TraceString(res.Run.Trace))
		}
		want := base.Clone()
		if len(res.Run.Trace) > 0 {
			m := model.O(nil)
			for i, x := range res.Run.Trace {
				m.O[fmt.Sprintf("s%d", i)] = model.I(int64(x.Pos))
				m.O[fmt.Sprintf("c%d", i)] = model.I(2)
			}
			want.O["mark"] = m
		}
		if !model.MatchEvent(want, res.Out) {
			t.Fail("the returned event is %s, want %s", model.Snapshot(res.Out).Canon(), want.Canon())
		}
	}
}

// TraceString renders a trace.
func TraceString(tr []Exec) string {
	var p []string
	for _, x := range tr {
		p = append(p, fmt.Sprintf("p%d:%v", x.Pos, x.Out))
	}
	return strings.Join(p, " ")
}

// Counter is one exported counter.
type Counter struct {
	Name, ID, Type string
	Value          float64
}

// Read reads all counters of a pipeline.
func Read(p *pipeline.Pipeline) []Counter { return ReadCollectors(p.Metrics()) }

// ReadCollectors reads all counters of a list of collectors.
func ReadCollectors(cs []prometheus.Collector) []Counter {
	var out []Counter
	ch := make(chan prometheus.Metric, 16)
	for _, c := range cs {
		c.Collect(ch)
		for len(ch) > 0 {
			m := <-ch
			var d dto.Metric
			if err := m.Write(&d); err != nil {
				panic(err)
			}
			x := Counter{Name: m.Desc().String(), Value: d.GetCounter().GetValue()}
			if i := strings.Index(x.Name, `fqName: "`); i >= 0 {
				x.Name = x.Name[i+9:]
				x.Name = x.Name[:strings.IndexByte(x.Name, '"')]
			}
			for _, l := range d.Label {
				switch l.GetName() {
				case "component_id":
					x.ID = l.GetValue()
				case "component_type":
					x.Type = l.GetValue()
				}
			}
			out = append(out, x)
		}
	}
	return out
}

// ByType groups counters by processor type.
func ByType(t *mc.T, cs []Counter) map[string]*Counts {
	out := map[string]*Counts{}
	for _, c := range cs {
		k := out[c.Type]
		if k == nil {
			k = &Counts{}
			out[c.Type] = k
		}
		v := int64(c.Value)
		switch {
		case strings.Contains(c.Name, "received"):
			k.Recv += v
		case strings.Contains(c.Name, "sent"):
			k.Sent += v
		case strings.Contains(c.Name, "error"):
			k.Errs += v
		case strings.Contains(c.Name, "discarded"):
			k.Disc += v
		default:
			t.Fail("unknown counter %s", c.Name)
		}
	}
	return out
}

// All offers the same outcomes at every step.
func All(m ...Outcome) func(pos, step int) []Outcome {
	return func(int, int) []Outcome { return m }
}

// Bounded offers the default outcome of a position, and the alternatives as long
// as fewer than bound deviations have been taken.
func Bounded(def func(pos int) Outcome, alts []Outcome, bound int) func(pos, step int) []Outcome {
	return func(pos, step int) []Outcome {
		d := def(pos)
		n := 0
		for _, c := range current.Choices {
			if c != 0 {
				n++
			}
		}
		m := []Outcome{d}
		if n < bound {
			for _, o := range alts {
				if o != d {
					m = append(m, o)
				}
			}
		}
		return m
	}
}

// Case is a pipeline shape with an outcome menu.
type Case struct {
	Name  string
	Shape *Shape
	Menu  func(pos, step int) []Outcome
}

// Sweeps yields long chains and deep nestings with few deviations.
func Sweeps(chain, deep, pairs int, alts []Outcome, yield func(Case) bool) bool {
	for _, n := range model.Sizes(chain, 600) {
		bound := 1
		if n <= pairs {
			bound = 2
		}
		for g := 0; g <= 2; g++ {
			for _, fl := range []int{0, 1, 2} {
				fl := fl
				s := Chain(n, g, func(int) int { return fl })
				if !yield(Case{"chain " + itoa(n) + "+" + itoa(g) + " flags " + itoa(fl), s, Bounded(func(int) Outcome { return OK }, alts, bound)}) {
					return false
				}
			}
			if n > 3 {
				// A long global handler list.
				s := Chain(1, n, func(int) int { return 0 })
				if g == 0 && !yield(Case{"handlers " + itoa(n), s, Bounded(func(pos int) Outcome {
					if pos == 0 {
						return Fail
					}
					return OK
				}, alts, bound)}) {
					return false
				}
				// A long local handler list.
				nd := &Node{Pos: 0}
				for i := 1; i <= n; i++ {
					nd.OnFailure = append(nd.OnFailure, &Node{Pos: i})
				}
				s = &Shape{Procs: []*Node{nd, {Pos: n + 1}}, N: n + 2}
				if g == 0 && !yield(Case{"local handlers " + itoa(n), s, Bounded(func(pos int) Outcome {
					if pos == 0 {
						return Fail
					}
					return OK
				}, alts, bound)}) {
					return false
				}
			}
		}
	}
	for _, d := range model.Sizes(deep, 600) {
		bound := 1
		if d <= pairs/2 {
			bound = 2
		}
		for _, fl := range []int{0, 1, 2} {
			fl := fl
			s := Deep(d, func(l int) int {
				if l == d/2 {
					return fl
				}
				return 0
			})
			inner := map[int]bool{}
			var mark func(n *Node)
			mark = func(n *Node) {
				if len(n.OnFailure) > 0 {
					inner[n.Pos] = true
					mark(n.OnFailure[0])
				}
			}
			mark(s.Procs[0])
			for _, last := range []Outcome{OK, Fail} {
				last := last
				if !yield(Case{"deep " + itoa(d) + " flags " + itoa(fl) + " innermost " + last.String(), s, Bounded(func(pos int) Outcome {
					if inner[pos] {
						return Fail
					}
					if pos == d {
						return last
					}
					return OK
				}, alts, bound)}) {
					return false
				}
			}
		}
	}
	return true
}

func itoa(n int) string { return fmt.Sprint(n) }

// Quiet lets script processors succeed when no explorer is running.
func Quiet() { quiet = true }

var quiet bool
