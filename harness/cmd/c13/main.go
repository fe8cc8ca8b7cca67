// C13: a pipeline definition is accepted exactly when it is valid.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	"verif/mc"
	"verif/model"
	"verif/ph"
	"verif/pr"
)

// vpicky refuses some configurations in its constructor.
type picky struct{ c pickyConfig }

type pickyConfig struct {
	Refuse        bool `config:"refuse"`
	IgnoreFailure bool `config:"ignore_failure"`
}

func (p *picky) Config() pickyConfig { return p.c }

func (p *picky) Process(processor.Event) error { return nil }

// vref refuses the zero configuration.
type strict struct{ c strictConfig }

type strictConfig struct {
	Mode string `config:"mode"`
}

func (p *strict) Config() strictConfig { return p.c }

func (p *strict) Process(processor.Event) error { return nil }

// Processors with Config methods of several types.
type (
	shape0  struct{ noop }
	shape1  struct{ noop }
	shape2  struct{ noop }
	shape3  struct{ noop }
	shape4  struct{ noop }
	shape5  struct{ noop }
	shape6  struct{ noop }
	shape7  struct{ noop }
	shape8  struct{ noop }
	shape9  struct{ noop }
	shape10 struct{ noop }
	noop    struct{}
)

func (noop) Process(processor.Event) error { return nil }

func (*shape1) Config(int) pickyConfig       { return pickyConfig{} }
func (*shape2) Config(...int) pickyConfig    { return pickyConfig{} }
func (*shape3) Config()                      {}
func (*shape4) Config() (pickyConfig, error) { return pickyConfig{}, nil }
func (*shape5) Config() map[string]bool      { return map[string]bool{"IgnoreFailure": true} }
func (*shape6) Config() *pickyConfig         { return nil }
func (*shape7) Config() interface{}          { return nil }
func (*shape9) Config() struct{}             { return struct{}{} }
func (*shape10) Config() map[string]bool     { return nil }
func (*shape8) Config() struct {
	IgnoreMissing string
	IgnoreFailure *bool
} {
	return struct {
		IgnoreMissing string
		IgnoreFailure *bool
	}{"true", nil}
}

var errRefused = errors.New("refused by the constructor")

func init() {
	registry.MustRegister("vpicky", func(c pickyConfig) (*picky, error) {
		if c.Refuse {
			return nil, errRefused
		}
		return &picky{c}, nil
	})
	for name, fn := range map[string]interface{}{
		"vcfg-none":     func(pickyConfig) (*shape0, error) { return &shape0{}, nil },
		"vcfg-arg":      func(pickyConfig) (*shape1, error) { return &shape1{}, nil },
		"vcfg-variadic": func(pickyConfig) (*shape2, error) { return &shape2{}, nil },
		"vcfg-noresult": func(pickyConfig) (*shape3, error) { return &shape3{}, nil },
		"vcfg-two":      func(pickyConfig) (*shape4, error) { return &shape4{}, nil },
		"vcfg-map":      func(pickyConfig) (*shape5, error) { return &shape5{}, nil },
		"vcfg-pointer":  func(pickyConfig) (*shape6, error) { return &shape6{}, nil },
		"vcfg-any":      func(pickyConfig) (*shape7, error) { return &shape7{}, nil },
		"vcfg-strings":  func(pickyConfig) (*shape8, error) { return &shape8{}, nil },
		"vcfg-empty":    func(pickyConfig) (*shape9, error) { return &shape9{}, nil },
		"vcfg-nilmap":   func(pickyConfig) (*shape10, error) { return &shape10{}, nil },
	} {
		registry.MustRegister(name, fn)
	}
	registry.MustRegister("vstrict", func(c strictConfig) (*strict, error) {
		if c.Mode == "" {
			return nil, errRefused
		}
		return &strict{c}, nil
	})
}

type m = map[string]interface{}

// kind of an entry.
type kind struct {
	name string
	ok   bool
	// make makes the entry with handlers attached where the kind allows.
	make func(pos int, h []pipeline.ProcessorConfig) pipeline.ProcessorConfig
	// leaf: the kind cannot carry handlers.
	leaf bool
	typ  func(pos int) string
}

func one(name string, ok bool, typ string, opts m) kind {
	return kind{name: name, ok: ok, typ: func(int) string { return typ }, make: func(pos int, h []pipeline.ProcessorConfig) pipeline.ProcessorConfig {
		return pipeline.ProcessorConfig{typ: &pipeline.ProcessorOptionConfig{OnFailure: h, Config: opts}}
	}}
}

func bare(name string, ok bool, typ string) kind {
	return kind{name: name, ok: ok, leaf: true, typ: func(int) string { return typ }, make: func(int, []pipeline.ProcessorConfig) pipeline.ProcessorConfig {
		return pipeline.ProcessorConfig{typ: nil}
	}}
}

var kinds = []kind{
	{name: "script", ok: true, typ: ph.TypeName, make: func(pos int, h []pipeline.ProcessorConfig) pipeline.ProcessorConfig {
		return pipeline.ProcessorConfig{ph.TypeName(pos): &pipeline.ProcessorOptionConfig{OnFailure: h, Config: m{"ignore_missing": true}}}
	}},
	one("set value", true, "set", m{"target_field": "a", "value": m{"x": []interface{}{1}}}),
	one("append", true, "append", m{"field": "list", "value": "v", "allow_duplicates": true}),
	one("remove", true, "remove", m{"fields": []interface{}{"zz"}, "ignore_missing": true}),
	one("community_id max seed", true, "community_id", m{"seed": 65535}),
	one("picky", true, "vpicky", m{"refuse": false}),
	one("strict", true, "vstrict", m{"mode": "x"}),
	bare("nil options, none needed", true, "community_id"),
	{name: "id and if", ok: true, typ: func(int) string { return "lowercase" }, make: func(pos int, h []pipeline.ProcessorConfig) pipeline.ProcessorConfig {
		return pipeline.ProcessorConfig{"lowercase": &pipeline.ProcessorOptionConfig{ID: "same", If: "x == 1", OnFailure: h, Config: m{"field": "zz", "ignore_missing": true}}}
	}},
	// Defects.
	{name: "empty entry", leaf: true, make: func(int, []pipeline.ProcessorConfig) pipeline.ProcessorConfig { return pipeline.ProcessorConfig{} }},
	{name: "nil entry", leaf: true, make: func(int, []pipeline.ProcessorConfig) pipeline.ProcessorConfig { return nil }},
	{name: "two processors", make: func(pos int, h []pipeline.ProcessorConfig) pipeline.ProcessorConfig {
		return pipeline.ProcessorConfig{ph.TypeName(pos): &pipeline.ProcessorOptionConfig{OnFailure: h}, "vnop": &pipeline.ProcessorOptionConfig{}}
	}},
	{name: "a known and an unknown processor", make: func(pos int, h []pipeline.ProcessorConfig) pipeline.ProcessorConfig {
		return pipeline.ProcessorConfig{ph.TypeName(pos): &pipeline.ProcessorOptionConfig{OnFailure: h}, "nosuch": nil}
	}},
	one("unknown processor", false, "nosuch", m{"field": "a"}),
	one("processor in capitals", false, "SET", m{"target_field": "a", "value": "x"}),
	one("empty processor name", false, "", m{"field": "a"}),
	bare("unknown processor, nil options", false, "nosuch"),
	bare("required option, nil options", false, "append"),
	one("required field missing", false, "lowercase", m{"target_field": "a"}),
	one("required fields missing", false, "remove", m{"ignore_missing": true}),
	one("required field null", false, "uppercase", m{"field": nil}),
	one("bool option not a bool", false, "append", m{"field": "a", "value": "v", "allow_duplicates": "perhaps"}),
	one("bool option an object", false, "set", m{"target_field": "a", "value": "x", "ignore_failure": m{"a": 1}}),
	one("string option an object", false, "lowercase", m{"field": m{"a": "b"}}),
	one("seed too large", false, "community_id", m{"seed": 65536}),
	one("seed negative", false, "community_id", m{"seed": -1}),
	one("refused by constructor", false, "vpicky", m{"refuse": true}),
	one("refused without options", false, "vstrict", nil),
}

func build(ns []*ph.Node, ks []int, types *[]string, ok *bool) []pipeline.ProcessorConfig {
	var out []pipeline.ProcessorConfig
	for _, n := range ns {
		k := kinds[ks[n.Pos]]
		*ok = *ok && k.ok
		if k.ok {
			*types = append(*types, k.typ(n.Pos))
		}
		if k.leaf && len(n.OnFailure) > 0 {
			return nil // not expressible
		}
		out = append(out, k.make(n.Pos, build(n.OnFailure, ks, types, ok)))
	}
	return out
}

func expressible(ns []*ph.Node, ks []int) bool {
	for _, n := range ns {
		if kinds[ks[n.Pos]].leaf && len(n.OnFailure) > 0 || !expressible(n.OnFailure, ks) {
			return false
		}
	}
	return true
}

func names(ns []*ph.Node, ks []int) string {
	var p []string
	for _, n := range ns {
		s := kinds[ks[n.Pos]].name
		if len(n.OnFailure) > 0 {
			s += " on_failure" + names(n.OnFailure, ks)
		}
		p = append(p, s)
	}
	return "[" + strings.Join(p, ", ") + "]"
}

func check(t *mc.T, s *ph.Shape, ks []int, id string, twice bool) {
	if !expressible(s.Procs, ks) || !expressible(s.OnFailure, ks) {
		return
	}
	t.Eval(1)
	t.At(func() string {
		return fmt.Sprintf("id %q processors%s on_failure%s", id, names(s.Procs, ks), names(s.OnFailure, ks))
	})
	ok := id != ""
	var types []string
	c := &pipeline.Config{ID: id}
	c.Processors = build(s.Procs, ks, &types, &ok)
	c.OnFailure = build(s.OnFailure, ks, &types, &ok)
	for round := 0; ; round++ {
		p, err := pipeline.New(c)
		t.Trans(1)
		if ok != (err == nil) {
			t.Fail("New: %v, valid: %v (round %d)", err, ok, round)
		}
		if (p == nil) != (err != nil) {
			t.Fail("New returned pipeline %v and error %v", p != nil, err)
		}
		if ok {
			contains(t, p, types)
			if p.ID() != id {
				t.Fail("ID() is %q", p.ID())
			}
		}
		if !twice || round > 0 {
			break
		}
	}
	if ok {
		t.Outcome("ok" + names(s.Procs, ks) + names(s.OnFailure, ks))
	} else {
		t.Outcome("refused" + names(s.Procs, ks) + names(s.OnFailure, ks))
	}
}

// contains checks that the pipeline holds every configured processor, as seen
// in its metrics.
func contains(t *mc.T, p *pipeline.Pipeline, types []string) {
	want := map[string]int{}
	for _, x := range types {
		want[x] += 4
	}
	ids := map[string]bool{}
	for _, c := range ph.Read(p) {
		want[c.Type]--
		k := c.ID + " " + c.Name
		if ids[k] {
			t.Fail("two counters %s", k)
		}
		ids[k] = true
	}
	for x, n := range want {
		if n != 0 {
			t.Fail("processor %q: %d counters missing (negative: too many)", x, n)
		}
	}
	if out, err := p.Process(event.New()); out == nil || err != nil {
		t.Fail("accepted pipeline cannot process an event: %v", err)
	}
}

func assignments(n int, menu []int, f func(ks []int)) {
	idx := make([]int, n)
	ks := make([]int, n)
	for {
		for j, x := range idx {
			ks[j] = menu[x]
		}
		f(ks)
		j := n - 1
		for ; j >= 0; j-- {
			idx[j]++
			if idx[j] < len(menu) {
				break
			}
			idx[j] = 0
		}
		if j < 0 {
			return
		}
	}
}

func main() {
	var all, defects, valid []int
	for k := range kinds {
		all = append(all, k)
		if kinds[k].ok {
			valid = append(valid, k)
		} else {
			defects = append(defects, k)
		}
	}
	mc.Main(&mc.Check{
		ID: "C13", Level: "exploration",
		Rule: "every definition shape to a size with every assignment of entry kinds (valid ones and 18 defects) to its positions; larger shapes, long lists and deep nestings with one or two defects at every position; every unusual name as id, processor name and option name, and option values of every Go kind, with the verdict compared to the registry's; distinct by (kinds at positions, verdict)",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"all_kinds": pr.Pick(tier, 3, 3), "two_defects": pr.Pick(tier, 4, 5), "one_defect": pr.Pick(tier, 5, 6), "kinds": len(kinds), "unusual_names": len(model.OddNames()), "list_length": pr.Pick(tier, 150, 380), "nesting": pr.Pick(tier, 60, 250)}
		},
		Assumptions: []string{"a definition without any processor is left open", "options a processor does not have are left open (they are ignored)", "metrics list every processor (C10)"},
		Setup:       func() error { ph.Quiet(); return nil },
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			if !yield("nil and ids", func(t *mc.T) {
				for _, c := range []*pipeline.Config{nil, {}, {Description: "x"}, {Processors: []pipeline.ProcessorConfig{{"vnop": nil}}}} {
					t.At(func() string { return fmt.Sprintf("New(%+v)", c) })
					if p, err := pipeline.New(c); err == nil || p != nil {
						t.Fail("accepted")
					}
				}
				for _, id := range []string{"x", " ", "a.b", "[0]", "é", "\x00", strings.Repeat("x", 1000)} {
					for _, k := range valid {
						check(t, ph.Chain(2, 1, func(int) int { return 0 }), []int{k, 0, k}, id, true)
					}
				}
			}) {
				return
			}
			for _, name := range model.OddNames() {
				name := name
				if !yield(fmt.Sprintf("name %q", pr.Clip2(name, 40)), func(t *mc.T) { odd(t, name) }) {
					return
				}
			}
			for _, typ := range real {
				typ := typ
				if !yield("option values of "+typ, func(t *mc.T) { optionValues(t, typ) }) {
					return
				}
			}
			if !yield("Config methods", configMethods) || !yield("many names in one entry", manyNames) {
				return
			}
			for n := 1; n <= 3; n++ {
				n := n
				if !ph.Shapes(n, []int{0}, func(s *ph.Shape) bool {
					return yield("all kinds "+s.String(), func(t *mc.T) {
						assignments(n, all, func(ks []int) {
							check(t, s, ks, "p", n < 3)
							if n == 1 {
								check(t, s, ks, "", false)
							}
						})
						t.Sample(func() string { return s.String() })
					})
				}) {
					return
				}
			}
			for n := 4; n <= pr.Pick(tier, 5, 6); n++ {
				n := n
				two := n <= pr.Pick(tier, 4, 5)
				if !ph.Shapes(n, []int{0}, func(s *ph.Shape) bool {
					return yield("defects "+s.String(), func(t *mc.T) { positions(t, s, n, two, valid, defects) })
				}) {
					return
				}
			}
			list := pr.Pick(tier, 150, 380)
			for _, l := range steps(list) {
				l := l
				if !yield(fmt.Sprint("list ", l), func(t *mc.T) {
					s := ph.Chain(l, l/2, func(int) int { return 0 })
					sweep(t, s, defects)
				}) {
					return
				}
			}
			for _, d := range steps(pr.Pick(tier, 60, 250)) {
				d := d
				if !yield(fmt.Sprint("nesting ", d), func(t *mc.T) {
					sweep(t, ph.Deep(d, func(int) int { return 0 }), defects)
				}) {
					return
				}
			}
		},
	})
}

var real = []string{"append", "community_id", "lowercase", "remove", "set", "uppercase"}

// odd uses an unusual name as id, as a processor's name (alone, around and
// inside the registered ones) and as an option's name.
func odd(t *mc.T, name string) {
	if utf8.ValidString(name) {
		for _, k := range []int{0, 1} {
			check(t, ph.Chain(2, 1, func(int) int { return 0 }), []int{k, 0, k}, name, true)
		}
	}
	reg := map[string]bool{"vnop": true}
	for _, r := range real {
		reg[r] = true
	}
	var typs []string
	for _, r := range append([]string{""}, real...) {
		typs = append(typs, r+name, name+r)
	}
	for _, typ := range typs {
		if reg[typ] {
			continue
		}
		for _, opts := range []*pipeline.ProcessorOptionConfig{nil, {}, {Config: m{"field": "a", "value": "b", "fields": []interface{}{"a"}, "target_field": "c"}}} {
			for place := 0; place < 3; place++ {
				t.At(func() string { return fmt.Sprintf("a processor named %q, place %d", typ, place) })
				bad := pipeline.ProcessorConfig{typ: opts}
				good := pipeline.ProcessorConfig{"vnop": nil}
				c := &pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{good, bad}}
				switch place {
				case 1:
					c = &pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{good}, OnFailure: []pipeline.ProcessorConfig{bad}}
				case 2:
					c = &pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{"vnop": &pipeline.ProcessorOptionConfig{OnFailure: []pipeline.ProcessorConfig{bad}}}}}
				}
				t.Eval(1)
				t.Trans(1)
				if p, err := pipeline.New(c); err == nil || p != nil {
					t.Fail("accepted: %v, %v", p != nil, err)
				}
			}
		}
	}
	for _, v := range []interface{}{1, "x", nil, m{name: 1}, []interface{}{m{name: nil}}} {
		agree(t, "vpicky", m{name: v})
		agree(t, "set", m{"target_field": "a", "value": m{name: v}})
		agree(t, "append", m{"field": "a", "value": "v", name: v})
	}
}

// agree checks that a pipeline accepts a processor exactly when the registry
// does, wherever it stands.
func agree(t *mc.T, typ string, opts m) {
	t.At(func() string { return pr.Clip(fmt.Sprintf("%s with %#v", typ, opts)) })
	t.Eval(1)
	proc, perr := registry.NewProcessor(typ, opts)
	if (proc == nil) != (perr != nil) {
		t.Fail("the registry returned a processor: %v, error %v", proc != nil, perr)
	}
	for place := 0; place < 3; place++ {
		e := pipeline.ProcessorConfig{typ: &pipeline.ProcessorOptionConfig{Config: opts}}
		c := &pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{e}}
		types := []string{typ}
		switch place {
		case 1:
			c = &pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{"vnop": nil}, e}, OnFailure: []pipeline.ProcessorConfig{e}}
			types = []string{"vnop", typ, typ}
		case 2:
			c = &pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{"vnop": &pipeline.ProcessorOptionConfig{OnFailure: []pipeline.ProcessorConfig{e}}}}}
			types = []string{"vnop", typ}
		}
		p, err := pipeline.New(c)
		t.Trans(1)
		if (p == nil) != (err != nil) {
			t.Fail("New returned a pipeline: %v, and error %v", p != nil, err)
		}
		if (err == nil) != (perr == nil) {
			t.Fail("New: %v, the registry: %v", err, perr)
		}
		if err == nil {
			count := map[string]int{}
			for _, x := range types {
				count[x] += 4
			}
			for _, c := range ph.Read(p) {
				count[c.Type]--
			}
			for x, n := range count {
				if n != 0 {
					t.Fail("processor %q: %d counters missing (negative: too many)", x, n)
				}
			}
		}
	}
	t.Outcome(fmt.Sprint(typ, opts, perr == nil))
}

// places lists definitions with an entry at every kind of place.
func places(e pipeline.ProcessorConfig) []*pipeline.Config {
	vnop := pipeline.ProcessorConfig{"vnop": nil}
	with := pipeline.ProcessorConfig{"vnop": &pipeline.ProcessorOptionConfig{OnFailure: []pipeline.ProcessorConfig{vnop, e}}}
	return []*pipeline.Config{
		{ID: "p", Processors: []pipeline.ProcessorConfig{e}},
		{ID: "p", Processors: []pipeline.ProcessorConfig{vnop, e, vnop}},
		{ID: "p", Processors: []pipeline.ProcessorConfig{vnop}, OnFailure: []pipeline.ProcessorConfig{vnop, e}},
		{ID: "p", Processors: []pipeline.ProcessorConfig{with}},
		{ID: "p", Processors: []pipeline.ProcessorConfig{vnop}, OnFailure: []pipeline.ProcessorConfig{with}},
		{ID: "p", OnFailure: []pipeline.ProcessorConfig{e}},
	}
}

// configMethods uses processors that the registry accepts and whose Config
// method has another type than a pipeline needs: New must not panic, and must
// accept a method that returns a struct.
func configMethods(t *mc.T) {
	for _, name := range []string{"vcfg-none", "vcfg-arg", "vcfg-variadic", "vcfg-noresult", "vcfg-two", "vcfg-map", "vcfg-pointer", "vcfg-any", "vcfg-strings", "vcfg-empty", "vcfg-nilmap"} {
		for k, c := range places(pipeline.ProcessorConfig{name: nil}) {
			t.At(func() string { return fmt.Sprintf("processor %s at place %d", name, k) })
			t.Eval(1)
			t.Trans(1)
			p, err := pipeline.New(c)
			if (p == nil) != (err != nil) {
				t.Fail("New returned a pipeline: %v, and error %v", p != nil, err)
			}
			if (name == "vcfg-strings" || name == "vcfg-empty") && err != nil {
				t.Fail("refused: %v", err)
			}
			if p != nil {
				if out, err := p.Process(event.New()); out == nil || err != nil {
					t.Fail("cannot process an event: %v", err)
				}
			}
		}
	}
}

// manyNames gives an entry two or more processors.
func manyNames(t *mc.T) {
	for _, n := range model.Sizes(300, 5000)[1:] {
		for _, same := range []bool{false, true} {
			e := pipeline.ProcessorConfig{}
			for k := 0; k < n; k++ {
				e[ph.TypeName(k)] = nil
				if same && k > 0 {
					delete(e, ph.TypeName(k))
					e[fmt.Sprint("nosuch", k)] = nil
				}
			}
			for k, c := range places(e) {
				t.At(func() string { return fmt.Sprintf("an entry of %d processors at place %d", n, k) })
				t.Eval(1)
				if p, err := pipeline.New(c); err == nil || p != nil {
					t.Fail("accepted")
				}
			}
		}
	}
}

// optionValues gives each option of a processor (and one it has not) values of
// every kind.
func optionValues(t *mc.T, typ string) {
	valid := map[string]m{
		"append":       {"field": "f", "value": "v"},
		"community_id": {},
		"lowercase":    {"field": "f"},
		"remove":       {"fields": []interface{}{"f"}},
		"set":          {"target_field": "f", "value": "v"},
		"uppercase":    {"field": "f"},
	}[typ]
	names := []string{"field", "fields", "value", "copy_from", "target_field", "ignore_missing", "ignore_failure", "allow_duplicates", "seed", "source_ip", "icmp_type", "transport", "on_failure", "if", "id", "nosuch", ""}
	one := 1
	str := "x"
	vals := []interface{}{nil, true, false, 0, 1, -1, 65535, 65536, int64(1) << 40, uint64(1) << 63, 1.0, 1.5, -0.0, math.Inf(1), math.NaN(), "", "x", "true", "1", "0", "yes", "null", " ", "a.b", ".", `\`, "${x}", "${", "a,b", "[a]", "{a: b}", strings.Repeat("x", 10000),
		[]interface{}{}, []interface{}{"x"}, []interface{}{"x", "y"}, []interface{}{1, nil, true}, []interface{}{[]interface{}{"x"}}, []interface{}{m{"a": 1}}, []string{"x"}, []string(nil), []int{1}, [2]string{"a", "b"},
		m{}, m(nil), m{"a": 1}, m{"0": "x"}, m{"-1": "x"}, m{"a": m{"b": []interface{}{m{"c": nil}}}}, map[string]string{"a": "b"}, map[interface{}]interface{}{"a": 1}, map[interface{}]interface{}{1: "a"}, map[int]string{1: "a"}, map[bool]int{true: 1},
		&one, &str, (*int)(nil), (*string)(nil), struct{ A int }{1}, struct{ a int }{1}, []byte("ab"), 'x', uint8(7), float32(2), complex(1, 2), json.Number("5"), time.Second, time.Unix(1, 2), errors.New("e"), event.String("x"), make(chan int), func() {},
	}
	base := func() m {
		o := m{}
		for k, v := range valid {
			o[k] = v
		}
		return o
	}
	for _, name := range names {
		for _, v := range vals {
			o := base()
			o[name] = v
			agree(t, typ, o)
			agree(t, typ, m{name: v})
			for _, w := range vals[:12] {
				o := base()
				o["value"], o[name] = w, v
				agree(t, typ, o)
			}
		}
	}
}

// positions puts one or two defects (or none) at every position of a shape.
func positions(t *mc.T, s *ph.Shape, n int, two bool, valid, defects []int) {
	ks := make([]int, n)
	for _, k := range valid {
		for j := range ks {
			ks[j] = k
		}
		check(t, s, ks, "p", false)
		for j := range ks {
			ks[j] = valid[(j+k)%len(valid)]
		}
		check(t, s, ks, "p", false)
		for x := 0; x < n; x++ {
			for _, d := range defects {
				for j := range ks {
					ks[j] = k
				}
				ks[x] = d
				check(t, s, ks, "p", false)
			}
		}
	}
	if !two {
		return
	}
	for x := 0; x < n; x++ {
		for y := 0; y < x; y++ {
			for _, d := range defects {
				for _, e := range defects {
					for j := range ks {
						ks[j] = 0
					}
					ks[x], ks[y] = d, e
					check(t, s, ks, "p", false)
				}
			}
		}
	}
	t.Sample(func() string { return s.String() })
}

// sweep puts one defect of each kind at the first, middle and last positions
// and one kind at every position.
func sweep(t *mc.T, s *ph.Shape, defects []int) {
	ks := make([]int, s.N)
	check(t, s, ks, "p", true)
	for x := 0; x < s.N; x++ {
		for _, d := range defects {
			if x > 2 && x < s.N-2 && x != s.N/2 && d != defects[x%len(defects)] {
				continue
			}
			for j := range ks {
				ks[j] = 0
			}
			ks[x] = d
			check(t, s, ks, "p", false)
		}
	}
	t.Sample(func() string { return s.String() })
}

func steps(max int) []int {
	var out []int
	for d := 1; d <= max; d += 1 + d/20 {
		out = append(out, d)
	}
	return model.WithSourceSizes(out, 700)
}
