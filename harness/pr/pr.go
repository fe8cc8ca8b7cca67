// Package pr runs single processors of the library on enumerated events and
// compares what a user observes with reference semantics.
package pr

import (
	"errors"
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	// The processors under test.
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/append"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/community_id"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/lowercase"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/remove"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/set"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/uppercase"

	"verif/mc"
	"verif/model"
)

type nop struct{}

type nopConfig struct{}

func (nop) Config() nopConfig { return nopConfig{} }

func (nop) Process(processor.Event) error { return nil }

// mark counts its executions.
type mark struct{}

var marks int64

func (mark) Config() nopConfig { return nopConfig{} }

func (mark) Process(processor.Event) error { atomic.AddInt64(&marks, 1); return nil }

func init() {
	registry.MustRegister("vmark", func(nopConfig) (*mark, error) { return &mark{}, nil })
	registry.MustRegister("vnop", func(nopConfig) (*nop, error) { return &nop{}, nil })
}

// Opts are processor options.
type Opts = map[string]interface{}

// Proc is a configured processor, run through pipelines: alone, so that the
// caller gets its error, and with a handler that does nothing, so that the
// caller gets the event as a failure left it.
type Proc struct {
	Typ     string
	Opts    Opts
	plain   *pipeline.Pipeline
	handled *pipeline.Pipeline
}

// New builds the pipelines; the options must be acceptable.
func New(t *mc.T, typ string, opts Opts) *Proc {
	p, err := TryNew(typ, opts)
	if err != nil {
		t.Fail("%s with %v: %v", typ, opts, err)
	}
	return p
}

// TryNew is New with an error.
func TryNew(typ string, opts Opts) (*Proc, error) {
	def := func(h ...pipeline.ProcessorConfig) *pipeline.Config {
		return &pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{typ: &pipeline.ProcessorOptionConfig{Config: opts, OnFailure: h}}, {"vmark": nil}}}
	}
	p := &Proc{Typ: typ, Opts: opts}
	var err error
	if p.plain, err = pipeline.New(def()); err != nil {
		return nil, err
	}
	if p.handled, err = pipeline.New(def(pipeline.ProcessorConfig{"vnop": nil})); err != nil {
		return nil, err
	}
	return p, nil
}

func (p *Proc) String() string { return fmt.Sprintf("%s%v", p.Typ, p.Opts) }

// Result of a run.
type Result struct {
	Err error
	// After is the event after the processor ran, failed or not.
	After *event.Event
}

// Missing returns the key of a missing-key error.
func (r Result) Missing() (string, bool) {
	if !errors.Is(r.Err, processor.ErrorKeyMissing{}) {
		return "", false
	}
	var k processor.ErrorKeyMissing
	if errors.As(r.Err, &k) {
		return k.Key, true
	}
	return "", true
}

// Run runs the processor on events made by mk.
func (p *Proc) Run(t *mc.T, mk func() *event.Event) Result {
	t.Trans(1)
	before := atomic.LoadInt64(&marks)
	out, err := p.plain.Process(mk())
	if err == nil {
		if out != nil && atomic.LoadInt64(&marks) != before+1 {
			t.Fail("the next processor did not run: the event was cancelled")
		}
		if out == nil {
			t.Fail("the event was dropped")
		}
		return Result{nil, out}
	}
	if out != nil {
		t.Fail("both an event and an error (%v)", err)
	}
	t.Trans(1)
	out, herr := p.handled.Process(mk())
	if herr != nil || out == nil {
		t.Fail("failed with %v, but the same pipeline with a handler that does nothing returned event %v, error %v", err, out != nil, herr)
	}
	return Result{err, out}
}

// Same fails unless the event is exactly root.
func Same(t *mc.T, e *event.Event, root *model.V, what string) {
	if !model.MatchEvent(root, e) {
		t.Fail("%s: event is %s, want %s", what, model.Snapshot(e).Canon(), root.Canon())
	}
}

// Again sends one event through a processor again and again. Before every turn
// all fields of the event are changed in place. run does one turn: it is given
// what the event holds and the event itself (through mk) and returns the event
// that comes out, or nil to stop.
func Again(t *mc.T, tree *model.V, run func(tree *model.V, mk func() *event.Event) *event.Event) {
	e, root := model.Build(tree), tree.Clone()
	for round := int64(1); round <= 3; round++ {
		if e = run(root, func() *event.Event { return e }); e == nil {
			return
		}
		root = model.Snapshot(e)
		if !model.Tweak(e, root, round) {
			t.Fail("two fields of the resulting event share a value: after changing each field in place it is %s, want %s", model.Snapshot(e).Canon(), root.Canon())
		}
	}
}

// Scramble overwrites every value node reachable from v in place.
func Scramble(v *event.Value) { model.Scramble(v) }

// ToGo is the plain Go form of a model value, as a configuration holds it.
func ToGo(v *model.V) interface{} {
	switch v.K {
	case model.Bool:
		return v.B
	case model.Int:
		return v.I
	case model.Uint:
		return v.U
	case model.Float:
		return v.F
	case model.String:
		return v.S
	case model.Array:
		a := make([]interface{}, 0, len(v.A))
		for _, e := range v.A {
			a = append(a, ToGo(e))
		}
		return a
	case model.Object:
		o := make(map[string]interface{}, len(v.O))
		for k, e := range v.O {
			o[k] = ToGo(e)
		}
		return o
	}
	return nil
}

// Signed returns v with unsigned integers in the int64 range made signed:
// configuration integers carry no signedness.
func Signed(v *model.V) *model.V {
	if v == nil {
		return nil
	}
	if v.K == model.Uint && v.U < 1<<63 {
		return model.I(int64(v.U))
	}
	c := *v
	if v.A != nil {
		c.A = make([]*model.V, len(v.A))
		for i, e := range v.A {
			c.A[i] = Signed(e)
		}
	}
	if v.O != nil {
		c.O = make(map[string]*model.V, len(v.O))
		for k, e := range v.O {
			c.O[k] = Signed(e)
		}
	}
	return &c
}

// Prefix reports whether a is a prefix of b (or equal).
func Prefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Keys lists every path over names up to a depth, plus other spellings.
func Keys(names []string, depth int) []string {
	var out []string
	level := []string{""}
	for d := 0; d < depth; d++ {
		var next []string
		for _, p := range level {
			for _, n := range names {
				k := model.Escape(n)
				if p != "" {
					k = p + "." + k
				}
				next = append(next, k)
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

// Q quotes keys for messages.
func Q(s string) string { return fmt.Sprintf("%q", s) }

// Pick chooses a bound by tier.
func Pick(tier string, q, th int) int {
	if tier == "thorough" {
		return th
	}
	return q
}

// Clip shortens a string.
func Clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return strings.ToValidUTF8(s, "?")
}

// Clip2 shortens a string to n bytes, keeping both ends.
func Clip2(s string, n int) string {
	if len(s) > n {
		s = s[:n*3/4] + "..." + s[len(s)-n/4:]
	}
	return s
}

// Nils are the events to a size in which a hand-made nil *Value stands at some
// place: such a member counts as absent (whether an event with no other member
// is empty is open).
func Nils(max int) []*model.V {
	spec := &model.TreeSpec{Leaves: []*model.V{model.NilV(), model.S("x")}, Names: []string{"a", "b", "a.b"}}
	var out []*model.V
	for k := 1; k <= max; k++ {
		for _, v := range spec.Objects(k) {
			some := false
			for _, e := range v.O {
				some = some || e.K != model.Nil
			}
			if some && v.Any(func(v *model.V) bool { return v.K == model.Nil }) {
				out = append(out, v)
			}
		}
	}
	return out
}
