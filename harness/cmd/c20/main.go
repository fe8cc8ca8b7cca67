// C20: the registry admits only well-formed processors and isolates instances.
package main

import (
	"errors"
	"fmt"
	"reflect"
	"unsafe"

	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	"verif/mc"
	"verif/model"
	"verif/pr"
)

type m = map[string]interface{}

// Processors of several types.
type (
	base struct{ note string }
	p1   struct {
		base
		c c1
	}
	p2 struct {
		base
		c c2
	}
	p3 struct {
		base
		c c3
	}
	p4 struct{ c c4 }
)

func (*p1) Process(processor.Event) error { return nil }
func (*p2) Process(processor.Event) error { return nil }
func (*p3) Process(processor.Event) error { return nil }
func (*p4) Process(processor.Event) error { return nil }

func (p *p1) Config() c1 { return p.c }
func (p *p2) Config() c2 { return p.c }
func (p *p3) Config() c3 { return p.c }
func (p *p4) Config() c4 { return p.c }

// c1: no defaults.
type c1 struct {
	X string                 `config:"x"`
	N int                    `config:"n"`
	L []string               `config:"l"`
	M map[string]interface{} `config:"m"`
	F string                 `config:"fail"`
}

// c2: defaults.
type c2 c1

func (c *c2) InitDefaults() {
	c.X, c.N, c.L, c.M = "dx", 7, []string{"d1", "d2"}, m{"dm": "v"}
}

// c3: required option.
type c3 struct {
	X string `config:"x" validate:"required"`
	F string `config:"fail"`
}

// c4: empty.
type c4 struct{}

// valueProc is a processor without a pointer.
type valueProc struct{}

func (valueProc) Process(processor.Event) error { return nil }

type notProc struct{}

var errSentinel = errors.New("constructor refused")

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

// ctor of the menu.
type ctor struct {
	name  string
	fn    interface{}
	valid bool
	// want checks an instance built with an options set; nil config means refused.
	want func(o int) (interface{}, error)
}

// option sets
var optSets = []func() m{
	func() m { return nil },
	func() m { return m{} },
	func() m { return m{"x": "v", "n": 3} },
	func() m {
		return m{"x": "w", "l": []interface{}{"p", "q"}, "m": m{"k": m{"kk": "vv"}, "arr": []interface{}{"a"}}}
	},
	func() m { return m{"x": "v", "fail": "sentinel"} },
	func() m { return m{"x": "v", "fail": "own"} },
	func() m { return m{"x": "v", "fail": "both"} },
	func() m { return m{"x": m{"not": "a string"}} },
}

func result(fail string) (keep bool, err error) {
	switch fail {
	case "sentinel":
		return false, errSentinel
	case "own":
		return false, fmt.Errorf("wrapped: %w", &myErr{"own"})
	case "both":
		return true, errSentinel
	}
	return true, nil
}

func new1(c c1) (*p1, error) {
	keep, err := result(c.F)
	if !keep {
		return nil, err
	}
	return &p1{c: c}, err
}

func want1(d c1) func(o int) (interface{}, error) {
	return func(o int) (interface{}, error) {
		c := d
		switch o {
		case 2:
			c.X, c.N = "v", 3
		case 3:
			c.X, c.L = "w", []string{"p", "q"}
			mm := m{"k": m{"kk": "vv"}, "arr": []interface{}{"a"}}
			for k, v := range d.M {
				mm[k] = v
			}
			c.M = mm
		case 4, 6:
			return nil, errSentinel
		case 5:
			return nil, &myErr{"own"}
		case 7:
			return nil, errAny
		}
		return c, nil
	}
}

var errAny = errors.New("any error")

type holder struct{ tag string }

func (h *holder) make(c c4) (*p4, error) { return &p4{c}, nil }

var menu = []ctor{
	{"func(c1)(*p1, error)", new1, true, want1(c1{})},
	{"func(c2)(*p2, error) with defaults", func(c c2) (*p2, error) {
		keep, err := result(c.F)
		if !keep {
			return nil, err
		}
		return &p2{c: c}, err
	}, true, want1(c1{X: "dx", N: 7, L: []string{"d1", "d2"}, M: m{"dm": "v"}})},
	{"func(c3)(*p3, error) with a required option", func(c c3) (*p3, error) {
		keep, err := result(c.F)
		if !keep {
			return nil, err
		}
		return &p3{c: c}, err
	}, true, func(o int) (interface{}, error) {
		switch o {
		case 0, 1, 7:
			return nil, errAny
		case 3:
			return c3{X: "w"}, nil
		case 4, 6:
			return nil, errSentinel
		case 5:
			return nil, &myErr{"own"}
		}
		return c3{X: "v"}, nil
	}},
	{"method value", (&holder{"h"}).make, true, func(o int) (interface{}, error) { return c4{}, nil }},
	{"nil", nil, false, nil},
	{"nil func", (func(c1) (*p1, error))(nil), false, nil},
	{"no argument", func() (*p1, error) { return &p1{}, nil }, false, nil},
	{"two arguments", func(c1, c1) (*p1, error) { return &p1{}, nil }, false, nil},
	{"variadic", func(...c1) (*p1, error) { return &p1{}, nil }, false, nil},
	{"struct and variadic", func(c1, ...c1) (*p1, error) { return &p1{}, nil }, false, nil},
	{"pointer argument", func(*c1) (*p1, error) { return &p1{}, nil }, false, nil},
	{"map argument", func(m) (*p1, error) { return &p1{}, nil }, false, nil},
	{"interface argument", func(interface{}) (*p1, error) { return &p1{}, nil }, false, nil},
	{"string argument", func(string) (*p1, error) { return &p1{}, nil }, false, nil},
	{"no result", func(c1) {}, false, nil},
	{"processor only", func(c1) *p1 { return &p1{} }, false, nil},
	{"error only", func(c1) error { return nil }, false, nil},
	{"three results", func(c1) (*p1, error, error) { return &p1{}, nil, nil }, false, nil},
	{"swapped results", func(c1) (error, *p1) { return nil, &p1{} }, false, nil},
	{"struct result", func(c1) (valueProc, error) { return valueProc{}, nil }, false, nil},
	{"not a processor", func(c1) (*notProc, error) { return &notProc{}, nil }, false, nil},
	{"string result", func(c1) (string, error) { return "", nil }, false, nil},
	{"interface result", func(c1) (interface{}, error) { return &p1{}, nil }, false, nil},
	{"second result a string", func(c1) (*p1, string) { return &p1{}, "" }, false, nil},
	{"second result a bool", func(c1) (*p1, bool) { return &p1{}, true }, false, nil},
	{"second result any", func(c1) (*p1, interface{}) { return &p1{}, nil }, false, nil},
	{"second result a processor", func(c1) (*p1, *p1) { return &p1{}, nil }, false, nil},
	{"int", 1, false, nil},
	{"string", "set", false, nil},
	{"struct", c1{}, false, nil},
	{"pointer to func", new(func(c1) (*p1, error)), false, nil},
	{"processor", &p1{}, false, nil},
	{"map", m{"a": 1}, false, nil},
	{"nil map", m(nil), false, nil},
	{"slice", []int{1}, false, nil},
	{"channel", make(chan int), false, nil},
	{"error", errSentinel, false, nil},
	{"nil error pointer", (*myErr)(nil), false, nil},
	{"reflect.Value", reflect.ValueOf(new1), false, nil},
	{"reflect.Type", reflect.TypeOf(new1), false, nil},
	{"unsafe pointer", unsafe.Pointer(nil), false, nil},
}

type instance struct {
	p    processor.Processor
	conf interface{}
}

type world struct {
	t     *mc.T
	reg   *registry.Registry
	names map[string]int
	insts []instance
}

func safely(f func() error) (err error, panicked interface{}) {
	defer func() { panicked = recover() }()
	return f(), nil
}

func (w *world) register(name string, c int) {
	err, pan := safely(func() error { return w.reg.Register(name, menu[c].fn) })
	w.t.Trans(1)
	if pan != nil {
		w.t.Fail("Register panicked: %v", pan)
	}
	_, taken := w.names[name]
	ok := menu[c].valid && !taken
	if ok != (err == nil) {
		w.t.Fail("Register: %v, want accepted: %v", err, ok)
	}
	if ok {
		w.names[name] = c
	}
}

func confOf(p processor.Processor) interface{} {
	switch p := p.(type) {
	case *p1:
		return p.c
	case *p2:
		return c1(p.c)
	case *p3:
		return p.c
	case *p4:
		return p.c
	}
	return nil
}

func (w *world) build(name string, o int) {
	opts := optSets[o]()
	defer func() {
		if !same(opts, optSets[o]()) {
			w.t.Fail("NewProcessor changed the given options to %v", opts)
		}
		// The caller's options are the caller's.
		scramble(opts)
		w.verify()
	}()
	var p processor.Processor
	err, pan := safely(func() (err error) { p, err = w.reg.NewProcessor(name, opts); return })
	w.t.Trans(1)
	if pan != nil {
		w.t.Fail("NewProcessor panicked: %v", pan)
	}
	c, known := w.names[name]
	if !known {
		if err == nil {
			w.t.Fail("NewProcessor of an unknown name succeeded")
		}
		return
	}
	conf, wantErr := menu[c].want(o)
	if (wantErr != nil) != (err != nil) {
		w.t.Fail("NewProcessor: error %v, want %v", err, wantErr)
	}
	if wantErr != nil {
		var my *myErr
		if wantErr == errSentinel && !errors.Is(err, errSentinel) || !errors.Is(wantErr, errAny) && wantErr != errSentinel && !errors.As(err, &my) {
			w.t.Fail("NewProcessor: %v does not pass on the constructor's error", err)
		}
		return
	}
	wantType := reflect.TypeOf(menu[c].fn).Out(0)
	if reflect.TypeOf(p) != wantType {
		w.t.Fail("NewProcessor made a %T, want %v", p, wantType)
	}
	got := confOf(p)
	if !reflect.DeepEqual(normal(got), normal(conf)) {
		w.t.Fail("config is %+v, want %+v", got, conf)
	}
	for _, x := range w.insts {
		if x.p == p && reflect.TypeOf(p).Elem().Size() > 0 {
			w.t.Fail("the same processor was returned twice")
		}
	}
	w.insts = append(w.insts, instance{p, conf})
}

func same(a, b m) bool { return (a == nil) == (b == nil) && reflect.DeepEqual(a, b) }

// normal makes nil and empty containers equal.
func normal(c interface{}) interface{} {
	if x, ok := c.(c1); ok {
		if len(x.L) == 0 {
			x.L = nil
		}
		if len(x.M) == 0 {
			x.M = nil
		}
		return x
	}
	return c
}

func scramble(x interface{}) {
	switch x := x.(type) {
	case m:
		for k, v := range x {
			scramble(v)
			x[k] = "changed"
		}
		if x != nil {
			x["added"] = "changed"
		}
	case []interface{}:
		for k := range x {
			scramble(x[k])
			x[k] = "changed"
		}
	}
}

// spoil changes everything the last instance holds.
func (w *world) spoil() {
	if len(w.insts) == 0 {
		return
	}
	x := &w.insts[len(w.insts)-1]
	change := func(c *c1) {
		for k := range c.L {
			c.L[k] = "spoiled"
		}
		scramble(c.M)
		c.X, c.N = "spoiled", -1
	}
	switch p := x.p.(type) {
	case *p1:
		change(&p.c)
		p.note = "spoiled"
	case *p2:
		change((*c1)(&p.c))
	case *p3:
		p.c.X = "spoiled"
	}
	w.insts = w.insts[:len(w.insts)-1]
}

func (w *world) verify() {
	for k, x := range w.insts {
		if !reflect.DeepEqual(normal(confOf(x.p)), normal(x.conf)) {
			w.t.Fail("instance %d, built earlier, now has config %+v, want %+v", k, confOf(x.p), x.conf)
		}
	}
}

type op struct {
	name string
	run  func(w *world)
}

func ops(full bool) []op {
	var out []op
	for c := range menu {
		if !full && !menu[c].valid && c != 4 && c != 20 {
			continue
		}
		for _, name := range []string{"a", "b"} {
			c, name := c, name
			out = append(out, op{fmt.Sprintf("Register(%s, %s)", name, menu[c].name), func(w *world) { w.register(name, c) }})
		}
	}
	for _, name := range []string{"a", "b", "A"} {
		for o := range optSets {
			if name == "A" && o > 1 || !full && (o == 1 || o == 5 || o == 6) {
				continue
			}
			o, name := o, name
			out = append(out, op{fmt.Sprintf("NewProcessor(%s, %v)", name, optSets[o]()), func(w *world) { w.build(name, o) }})
		}
	}
	out = append(out, op{"change the last instance", func(w *world) { w.spoil() }})
	return out
}

func (w *world) canon() string {
	s := fmt.Sprint(w.names)
	for _, x := range w.insts {
		s += fmt.Sprintf("%T%v;", x.p, normal(confOf(x.p)))
	}
	return s
}

func explore(t *mc.T, all []op, first, depth int) {
	idx := make([]int, depth)
	idx[0] = first
	for {
		w := &world{t: t, reg: registry.NewRegistry(), names: map[string]int{}}
		names := 0
		t.At(func() string {
			s := ""
			for _, k := range idx[:names] {
				s += all[k].name + "; "
			}
			return s
		})
		for _, k := range idx {
			names++
			all[k].run(w)
			w.verify()
			t.State(w.canon())
		}
		// Registered names stay as they are: build each once more.
		for name := range w.names {
			w.build(name, 2)
		}
		w.verify()
		t.Trace(1)
		t.Eval(1)
		t.Outcome(w.canon())
		k := depth - 1
		for ; k >= 1; k-- {
			idx[k]++
			if idx[k] < len(all) {
				break
			}
			idx[k] = 0
		}
		if k < 1 {
			return
		}
	}
}

type (
	custom interface{ error }
	wide   interface {
		error
		More()
	}
	structErr struct{}
	valErrs   []string
	numErr    uintptr
	iface     interface{ processor.Processor }
	otherProc interface {
		processor.Processor
		More()
	}
	tagged struct {
		X map[string]int `config:"x"`
	}
	procMap map[string]int
	mine    func(c1) (*p1, error)
)

func (structErr) Error() string               { return "" }
func (valErrs) Error() string                 { return "" }
func (numErr) Error() string                  { return "" }
func (procMap) Process(processor.Event) error { return nil }

// funcs registers functions of every type with up to two arguments and three
// results from menus.
func funcs(yield func(string, func(*mc.T)) bool) bool {
	typ := func(x interface{}) reflect.Type { return reflect.TypeOf(x).Elem() }
	ins := []reflect.Type{typ(new(c1)), typ(new(c4)), typ(new(struct{})), typ(new(tagged)), typ(new(*c1)), typ(new(**c1)), typ(new(string)), typ(new(int)), typ(new(m)), typ(new([]c1)), typ(new([1]c1)), typ(new(interface{})), typ(new(func(c1))), typ(new(chan c1)), typ(new(error)), typ(new(*p1)), typ(new(processor.Processor))}
	outs := []reflect.Type{typ(new(*p1)), typ(new(*p4)), typ(new(*valueProc)), typ(new(valueProc)), typ(new(p1)), typ(new(**p1)), typ(new(*notProc)), typ(new(procMap)), typ(new(*procMap)), typ(new(processor.Processor)), typ(new(iface)), typ(new(otherProc)), typ(new(*processor.Processor)), typ(new(interface{})), typ(new(error)), typ(new(custom)), typ(new(wide)), typ(new(*myErr)), typ(new(structErr)), typ(new(*structErr)), typ(new(valErrs)), typ(new(numErr)), typ(new(string)), typ(new(bool)), typ(new(int)), typ(new(m))}
	procs := map[reflect.Type]bool{outs[0]: true, outs[1]: true, outs[2]: true, outs[8]: true}
	isErr := map[reflect.Type]bool{outs[14]: true, outs[15]: true}
	openErr := map[reflect.Type]bool{}
	for _, o := range outs[16:22] {
		openErr[o] = true
	}
	var inLists, outLists [][]reflect.Type
	inLists = append(inLists, nil)
	outLists = append(outLists, nil)
	for _, a := range ins {
		inLists = append(inLists, []reflect.Type{a})
	}
	for _, a := range ins {
		for _, b := range ins {
			inLists = append(inLists, []reflect.Type{a, b})
		}
	}
	for _, a := range outs {
		outLists = append(outLists, []reflect.Type{a})
	}
	for _, a := range outs {
		for _, b := range outs {
			outLists = append(outLists, []reflect.Type{a, b})
		}
	}
	for _, a := range outs {
		for _, b := range outs {
			outLists = append(outLists, []reflect.Type{outs[0], a, b}, []reflect.Type{a, outs[14], b})
		}
	}
	for _, in := range inLists {
		in := in
		for _, variadic := range []bool{false, true} {
			variadic := variadic
			if variadic && len(in) == 0 {
				continue
			}
			if !yield(fmt.Sprintf("functions of %v %v", in, variadic), func(t *mc.T) {
				in := append([]reflect.Type(nil), in...)
				if variadic {
					in[len(in)-1] = reflect.SliceOf(in[len(in)-1])
				}
				for _, out := range outLists {
					ft := reflect.FuncOf(in, out, variadic)
					f := reflect.MakeFunc(ft, func([]reflect.Value) []reflect.Value {
						var res []reflect.Value
						for k, o := range out {
							if k == 0 && o.Kind() == reflect.Ptr {
								res = append(res, reflect.New(o.Elem()))
							} else {
								res = append(res, reflect.Zero(o))
							}
						}
						return res
					})
					t.At(func() string { return fmt.Sprintf("Register(f, a %v)", ft) })
					t.Eval(1)
					reg := registry.NewRegistry()
					if err := reg.Register("old", new1); err != nil {
						t.Fail("%v", err)
					}
					err, pan := safely(func() error { return reg.Register("f", f.Interface()) })
					if pan != nil {
						t.Fail("panicked: %v", pan)
					}
					good := len(in) == 1 && !variadic && in[0].Kind() == reflect.Struct && len(out) == 2 && procs[out[0]]
					open := good && openErr[out[1]]
					good = good && isErr[out[1]]
					if !open && good != (err == nil) {
						t.Fail("%v, want accepted: %v", err, good)
					}
					t.Outcome(ft.String())
					var p processor.Processor
					perr, pan := safely(func() (err error) { p, err = reg.NewProcessor("f", nil); return })
					if pan != nil {
						t.Fail("accepted (error %v), then NewProcessor panicked: %v", err, pan)
					}
					if err != nil && perr == nil {
						t.Fail("refused, but NewProcessor made a %T", p)
					}
					if err == nil && (perr != nil || reflect.TypeOf(p) != out[0]) {
						t.Fail("accepted, but NewProcessor returned %T, %v", p, perr)
					}
					if p, err := reg.NewProcessor("old", nil); err != nil || reflect.TypeOf(p) != reflect.TypeOf(&p1{}) {
						t.Fail("the processor registered before is now a %T, %v", p, err)
					}
				}
			}) {
				return false
			}
		}
	}
	yield("function of a named type", func(t *mc.T) {
		t.Eval(1)
		if err := registry.NewRegistry().Register("f", mine(new1)); err != nil {
			t.Fail("refused: %v", err)
		}
	})
	return true
}

// odd registers processors under an unusual name and under names it might be
// confused with.
func odd(t *mc.T, name string) {
	var names []string
	for _, k := range model.Names(model.OddTree(name, model.I(1), func(k int) *model.V { return model.I(int64(k)) })) {
		if k != "" {
			names = append(names, k)
		}
	}
	for skip := -1; skip < len(names); skip++ {
		w := &world{t: t, reg: registry.NewRegistry(), names: map[string]int{}}
		for k, n := range names {
			k, n := k, n
			t.At(func() string { return fmt.Sprintf("all of %q but %d registered in turn: %q", names, skip, n) })
			if k != skip {
				w.register(n, k%4)
				w.register(n, (k+1)%4)
			}
		}
		for _, n := range names {
			w.build(n, 2)
			w.build(n, 3)
		}
		t.Eval(1)
		t.Outcome(fmt.Sprint(name, skip))
	}
}

func main() {
	mc.Main(&mc.Check{
		ID: "C20", Level: "model_checking",
		Rule: "every history to a length of Register (2 names x 41 Go values), NewProcessor (3 names x 8 option sets) and in-place changes of instances, on a fresh registry, in lockstep with a map from name to constructor; after every step every earlier instance is compared with what it was; distinct by registry content and instances",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"full_alphabet_length": 2, "full_alphabet": len(ops(true)), "reduced_alphabet": len(ops(false)), "reduced_alphabet_length": pr.Pick(tier, 4, 5), "many_registrations": pr.Pick(tier, 300, 3000)}
		},
		Assumptions: []string{"constructors whose second result is a concrete or wider error type, constructors that panic, and nil processors without an error are left open", "the empty name is left open"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			full := ops(true)
			for k := range full {
				k := k
				if !yield("full "+full[k].name, func(t *mc.T) { explore(t, full, k, 2); t.Sample(func() string { return full[k].name }) }) {
					return
				}
			}
			if tier == "thorough" {
				for k := range full {
					k := k
					if !yield("full 3 "+full[k].name, func(t *mc.T) { explore(t, full, k, 3) }) {
						return
					}
				}
			}
			red := ops(false)
			for k := range red {
				for d := 3; d <= pr.Pick(tier, 4, 5); d++ {
					k, d := k, d
					if !yield(fmt.Sprint("reduced ", d, red[k].name), func(t *mc.T) { explore(t, red, k, d) }) {
						return
					}
				}
			}
			funcs(yield)
			for _, name := range model.OddNames() {
				name := name
				if !yield("name "+mc.Short(name), func(t *mc.T) { odd(t, name) }) {
					return
				}
			}
			// Many names.
			yield("many", func(t *mc.T) {
				w := &world{t: t, reg: registry.NewRegistry(), names: map[string]int{}}
				many := pr.Pick(tier, 300, 3000)
				if n := model.SourceInts(20000); n[len(n)-1] >= many {
					many = n[len(n)-1] + 2
				}
				for k := 0; k < many; k++ {
					k := k
					t.At(func() string { return fmt.Sprintf("%d registrations", k) })
					w.register(fmt.Sprint("n", k), k%4)
					w.register(fmt.Sprint("n", k/2), (k+1)%4)
					w.build(fmt.Sprint("n", k), 2)
					w.build(fmt.Sprint("n", k/3), 3)
					w.build(fmt.Sprint("n", k+1), 0)
					if k%50 == 0 && (k < 3000 || k%500 == 0) {
						w.verify()
					}
				}
				w.verify()
				t.Eval(1)
			})
		},
	})
}
