package pr

import (
	"errors"
	"fmt"
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	"verif/model"
)

// cond is a processor that acts if a field is present: drop, cancel, fail or
// missing.
type cond struct{ cfg condConfig }

type condConfig struct {
	Field         string `config:"field"`
	Act           string `config:"act"`
	IgnoreMissing bool   `config:"ignore_missing"`
	IgnoreFailure bool   `config:"ignore_failure"`
}

func (c *cond) Config() condConfig { return c.cfg }

func (c *cond) Process(e processor.Event) error {
	if e.Get(c.cfg.Field) == nil {
		return nil
	}
	switch c.cfg.Act {
	case "drop":
		e.Drop()
	case "cancel":
		e.Cancel()
	case "missing":
		return processor.ErrorKeyMissing{Key: c.cfg.Field}
	default:
		return errors.New("vcond failed on " + c.cfg.Field)
	}
	return nil
}

// call is a processor that runs Hook, and fails if so configured.
type call struct{ cfg condConfig }

// Hook is what vcall processors do.
var Hook func()

func (c *call) Config() condConfig { return c.cfg }

func (c *call) Process(processor.Event) error {
	if Hook != nil {
		Hook()
	}
	if c.cfg.Act == "fail" {
		return errors.New("vcall failed")
	}
	return nil
}

func init() {
	registry.MustRegister("vcall", func(c condConfig) (*call, error) { return &call{c}, nil })
	registry.MustRegister("vcond", func(c condConfig) (*cond, error) { return &cond{c}, nil })
}

// P is a processor definition that the reference interpreter understands.
type P struct {
	Typ             string
	Field, Target   string // source (copy_from for set) and target field
	Str             string // value for append, action for vcond
	Val             *model.V
	Fields          []string
	Dup             bool
	IgnMiss, IgnErr bool
	OnFailure       []P
}

// Conf makes a fresh configuration.
func (p P) Conf() pipeline.ProcessorConfig {
	m := map[string]interface{}{}
	if p.IgnMiss {
		m["ignore_missing"] = true
	}
	if p.IgnErr {
		m["ignore_failure"] = true
	}
	switch p.Typ {
	case "set":
		m["target_field"] = p.Target
		if p.Val != nil {
			m["value"] = ToGo(p.Val)
		} else {
			m["copy_from"] = p.Field
		}
	case "append":
		m["field"], m["value"] = p.Field, p.Str
		if p.Dup {
			m["allow_duplicates"] = true
		}
	case "lowercase", "uppercase":
		m["field"] = p.Field
		if p.Target != "" {
			m["target_field"] = p.Target
		}
	case "remove":
		f := make([]interface{}, len(p.Fields))
		for i := range f {
			f[i] = p.Fields[i]
		}
		m["fields"] = f
	case "vcond", "vcall":
		m["field"], m["act"] = p.Field, p.Str
	default:
		panic("unknown " + p.Typ)
	}
	return pipeline.ProcessorConfig{p.Typ: &pipeline.ProcessorOptionConfig{Config: m, OnFailure: Confs(p.OnFailure)}}
}

// Confs makes fresh configurations.
func Confs(ps []P) []pipeline.ProcessorConfig {
	var out []pipeline.ProcessorConfig
	for _, p := range ps {
		out = append(out, p.Conf())
	}
	return out
}

func (p P) String() string {
	s := fmt.Sprintf("%s%v", p.Typ, p.Conf()[p.Typ].Config)
	if len(p.OnFailure) > 0 {
		s += fmt.Sprintf(" on_failure%v", p.OnFailure)
	}
	return s
}

// Def is a whole pipeline definition.
type Def struct{ Procs, OnFailure []P }

// Conf makes a fresh configuration.
func (d Def) Conf(id string) *pipeline.Config {
	return &pipeline.Config{ID: id, Processors: Confs(d.Procs), OnFailure: Confs(d.OnFailure)}
}

func (d Def) String() string { return fmt.Sprintf("processors%v on_failure%v", d.Procs, d.OnFailure) }

// Out is what the caller gets.
type Out struct {
	Root    *model.V // nil when dropped or failed
	Failed  bool
	Dropped bool
}

func (o Out) Canon() string {
	switch {
	case o.Failed:
		return "failed"
	case o.Dropped:
		return "dropped"
	}
	return o.Root.Canon()
}

type refErr struct{ missing bool }

type interp struct {
	m                  *model.Tree
	dropped, cancelled bool

	open  bool // explore what the documentation leaves open
	plan  []int
	taken []int // choices made, and
	width []int // out of how many
}

// choose is 0 .. n-1; 0 is the usual behaviour.
func (x *interp) choose(n int) int {
	if !x.open {
		return 0
	}
	c := 0
	if len(x.taken) < len(x.plan) {
		c = x.plan[len(x.taken)]
	}
	x.taken, x.width = append(x.taken, c), append(x.width, n)
	return c
}

// Ref interprets the definition on an event, with the usual behaviour where the
// documentation leaves it open.
func (d Def) Ref(tree *model.V) Out {
	return (&interp{}).run(d, tree)
}

// Refs interprets the definition on an event and gives every result that the
// documentation allows.
func (d Def) Refs(tree *model.V) (outs []Out) {
	var plan []int
	for {
		x := &interp{open: true, plan: plan}
		outs = append(outs, x.run(d, tree))
		k := len(x.taken) - 1
		for k >= 0 && x.taken[k]+1 == x.width[k] {
			k--
		}
		if k < 0 {
			return outs
		}
		plan = append(append([]int{}, x.taken[:k]...), x.taken[k]+1)
	}
}

func (x *interp) run(d Def, tree *model.V) Out {
	x.m = &model.Tree{Root: tree.Clone()}
	err := x.list(d.Procs)
	if err != nil && len(d.OnFailure) > 0 && !x.done() {
		err = x.list(d.OnFailure)
	}
	switch {
	case x.dropped:
		return Out{Dropped: true}
	case err != nil:
		return Out{Failed: true}
	}
	return Out{Root: x.m.Root}
}

func (x *interp) done() bool { return x.dropped || x.cancelled }

func (x *interp) list(ps []P) *refErr {
	for _, p := range ps {
		if err := x.one(p); err != nil || x.done() {
			return err
		}
	}
	return nil
}

func (x *interp) one(p P) *refErr {
	err := x.act(p)
	if err == nil || err.missing && p.IgnMiss {
		return nil
	}
	if len(p.OnFailure) > 0 {
		if err = x.list(p.OnFailure); err == nil {
			return nil
		}
	}
	if p.IgnErr {
		return nil
	}
	return err
}

func (x *interp) put(key string, v *model.V) *refErr {
	if _, err := x.m.Put(model.Path(key), v, true); err != model.OK {
		return &refErr{}
	}
	return nil
}

func (x *interp) act(p P) *refErr {
	get := func(k string) *model.V { return x.m.Get(model.Path(k)) }
	switch p.Typ {
	case "set":
		v := p.Val
		if v == nil {
			v = get(p.Field)
			if v == nil || v.K == model.Null || v == x.m.Root && len(v.O) == 0 && x.choose(2) == 1 {
				return &refErr{missing: true}
			}
		}
		return x.put(p.Target, v.Clone())
	case "append":
		cur := get(p.Field)
		var elems []*model.V
		switch {
		case cur == nil || cur.K == model.Null:
			if p.IgnMiss && x.choose(2) == 1 {
				return nil // documented as "returns without modifying"
			}
		case cur.K == model.Object:
			return &refErr{}
		case cur.K == model.Array:
			elems = append(elems, cur.A...)
		default:
			elems = []*model.V{cur}
		}
		for _, e := range elems {
			if !p.Dup && e.K == model.String && e.S == p.Str {
				if cur.K != model.Array && x.choose(2) == 1 {
					return x.put(p.Field, model.A(elems...))
				}
				return nil
			}
		}
		return x.put(p.Field, model.A(append(elems, model.S(p.Str))...))
	case "lowercase", "uppercase":
		v := get(p.Field)
		if v == nil || v.K == model.Null {
			return &refErr{missing: true}
		}
		conv := strings.ToLower
		if p.Typ == "uppercase" {
			conv = strings.ToUpper
		}
		to := p.Target
		if to == "" {
			to = p.Field
		}
		if v.K == model.Array && x.choose(2) == 1 {
			// Documented, but refused (a known finding of C17).
			out := model.A()
			for _, e := range v.A {
				if e.K != model.String {
					return &refErr{}
				}
				out.A = append(out.A, model.S(conv(e.S)))
			}
			return x.put(to, out)
		}
		if v.K != model.String {
			return &refErr{}
		}
		return x.put(to, model.S(conv(v.S)))
	case "remove":
		all := true
		for _, f := range p.Fields {
			all = all && get(f) != nil
		}
		how := 0
		if !all && !p.IgnMiss {
			how = x.choose(3) // how much of the list is removed before it fails
		}
		for _, f := range p.Fields {
			if how == 1 {
				break
			}
			if x.m.Delete(model.Path(f)) == nil && !p.IgnMiss && how == 0 {
				return &refErr{missing: true}
			}
		}
		if !all && !p.IgnMiss {
			return &refErr{missing: true}
		}
		return nil
	case "vcall":
		if p.Str == "fail" {
			return &refErr{}
		}
		return nil
	case "vcond":
		if get(p.Field) == nil {
			return nil
		}
		switch p.Str {
		case "drop":
			x.dropped = true
			return nil
		case "cancel":
			x.cancelled = true
			return nil
		}
		return &refErr{missing: p.Str == "missing"}
	}
	panic(p.Typ)
}
