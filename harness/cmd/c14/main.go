// C14: YAML and JSON definitions mean the same and survive re-encoding.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"gopkg.in/yaml.v3"

	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/mc"
	"verif/model"
	"verif/ph"
	"verif/pr"
)

var (
	i, u, f, s, b, a, n = model.I, model.U, model.F, model.S, model.B, model.A, model.N
	kv                  = model.KV
)

// Opt are the options of one processor.
type Opt struct {
	ID, If   *string
	OnF      []Entry
	EmptyOnF bool // on_failure: []
	NullOnF  bool // on_failure: null
	Keys     []string
	Vals     []*model.V
	Late     bool // id, if and on_failure come after the other keys
}

// Entry is one list entry: processor names with options (nil: null).
type Entry struct {
	Names []string
	Opts  []*Opt
}

// Def is a definition.
type Def struct {
	ID, Desc         *string
	Procs, OnF       []Entry
	ProcsNil, OnFNil bool // key absent
}

// ---- expected meaning

func str(p *string) *model.V {
	if p == nil {
		return s("")
	}
	return s(*p)
}

func wantEntries(es []Entry) *model.V {
	out := a()
	for _, e := range es {
		o := kv()
		for k, name := range e.Names {
			if e.Opts[k] == nil {
				o.O[name] = n()
				continue
			}
			p := e.Opts[k]
			c := kv()
			for j, key := range p.Keys {
				c.O[key] = p.Vals[j]
			}
			o.O[name] = kv("id", str(p.ID), "if", str(p.If), "on_failure", wantEntries(p.OnF), "config", c)
		}
		out.A = append(out.A, o)
	}
	return out
}

func (d *Def) want() *model.V {
	return kv("id", str(d.ID), "description", str(d.Desc), "processors", wantEntries(d.Procs), "on_failure", wantEntries(d.OnF))
}

// ---- actual meaning

func norm(x interface{}) *model.V {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Invalid:
		return n()
	case reflect.Bool:
		return b(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return i(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return pr.Signed(u(v.Uint()))
	case reflect.Float32, reflect.Float64:
		return f(v.Float())
	case reflect.String:
		return s(v.String())
	case reflect.Slice:
		out := a()
		for k := 0; k < v.Len(); k++ {
			out.A = append(out.A, norm(v.Index(k).Interface()))
		}
		return out
	case reflect.Map:
		out := kv()
		for _, k := range v.MapKeys() {
			name, ok := k.Interface().(string)
			if !ok {
				return &model.V{K: model.Bad, S: fmt.Sprintf("key %v", k)}
			}
			out.O[name] = norm(v.MapIndex(k).Interface())
		}
		return out
	}
	return &model.V{K: model.Bad, S: fmt.Sprintf("%T", x)}
}

func gotEntries(cs []pipeline.ProcessorConfig) *model.V {
	out := a()
	for _, c := range cs {
		o := kv()
		for name, p := range c {
			if p == nil {
				o.O[name] = n()
				continue
			}
			conf := kv()
			for k, v := range p.Config {
				conf.O[k] = norm(v)
			}
			o.O[name] = kv("id", s(p.ID), "if", s(string(p.If)), "on_failure", gotEntries(p.OnFailure), "config", conf)
		}
		out.A = append(out.A, o)
	}
	return out
}

func got(c *pipeline.Config) *model.V {
	return kv("id", s(c.ID), "description", s(c.Description), "processors", gotEntries(c.Processors), "on_failure", gotEntries(c.OnFailure))
}

// ---- writers

// quote is valid in JSON and in YAML.
func quote(x string) string {
	var o strings.Builder
	o.WriteByte('"')
	for _, r := range x {
		switch {
		case r == '"' || r == '\\':
			o.WriteByte('\\')
			o.WriteRune(r)
		case r >= 0x20 && r < 0x7f || r > 0xffff:
			o.WriteRune(r)
		default:
			fmt.Fprintf(&o, `\u%04x`, r)
		}
	}
	o.WriteByte('"')
	return o.String()
}

func num(x float64) string {
	t := strconv.FormatFloat(x, 'g', -1, 64)
	if !strings.ContainsAny(t, ".e") {
		t += ".0"
	}
	return t
}

func scalar(v *model.V, str func(string) string) string {
	switch v.K {
	case model.Null:
		return "null"
	case model.Bool:
		return fmt.Sprint(v.B)
	case model.Int:
		return fmt.Sprint(v.I)
	case model.Uint:
		return fmt.Sprint(v.U)
	case model.Float:
		return num(v.F)
	case model.String:
		return str(v.S)
	}
	panic("not a scalar")
}

// node is a document tree with ordered members.
type node struct {
	leaf *model.V
	list []*node
	keys []string
	vals []*node
	kind byte // 's', 'l', 'm'
}

func leaf(v *model.V) *node { return &node{kind: 's', leaf: v} }

func tree(v *model.V) *node {
	switch v.K {
	case model.Array:
		x := &node{kind: 'l'}
		for _, e := range v.A {
			x.list = append(x.list, tree(e))
		}
		return x
	case model.Object:
		x := &node{kind: 'm'}
		for k := range v.O {
			x.keys = append(x.keys, k)
		}
		sortStrings(x.keys)
		for _, k := range x.keys {
			x.vals = append(x.vals, tree(v.O[k]))
		}
		return x
	}
	return leaf(v)
}

func sortStrings(x []string) {
	for p := 1; p < len(x); p++ {
		for q := p; q > 0 && x[q] < x[q-1]; q-- {
			x[q], x[q-1] = x[q-1], x[q]
		}
	}
}

func (x *node) add(k string, v *node) { x.keys = append(x.keys, k); x.vals = append(x.vals, v) }

func entriesNode(es []Entry) *node {
	l := &node{kind: 'l'}
	for _, e := range es {
		m := &node{kind: 'm'}
		for k, name := range e.Names {
			if e.Opts[k] == nil {
				m.add(name, leaf(n()))
				continue
			}
			m.add(name, e.Opts[k].node())
		}
		l.list = append(l.list, m)
	}
	return l
}

func (p *Opt) node() *node {
	m := &node{kind: 'm'}
	special := func() {
		if p.If != nil {
			m.add("if", leaf(s(*p.If)))
		}
		if p.OnF != nil || p.EmptyOnF {
			m.add("on_failure", entriesNode(p.OnF))
		} else if p.NullOnF {
			m.add("on_failure", leaf(n()))
		}
		if p.ID != nil {
			m.add("id", leaf(s(*p.ID)))
		}
	}
	if !p.Late {
		special()
	}
	for k, key := range p.Keys {
		m.add(key, tree(p.Vals[k]))
	}
	if p.Late {
		special()
	}
	return m
}

func (d *Def) node() *node {
	m := &node{kind: 'm'}
	if d.ID != nil {
		m.add("id", leaf(s(*d.ID)))
	}
	if d.Desc != nil {
		m.add("description", leaf(s(*d.Desc)))
	}
	if !d.ProcsNil {
		m.add("processors", entriesNode(d.Procs))
	}
	if !d.OnFNil {
		m.add("on_failure", entriesNode(d.OnF))
	}
	return m
}

func (x *node) json(o *strings.Builder, sp string) {
	switch x.kind {
	case 's':
		o.WriteString(scalar(x.leaf, quote))
	case 'l':
		o.WriteByte('[')
		for k, e := range x.list {
			if k > 0 {
				o.WriteByte(',')
			}
			o.WriteString(sp)
			e.json(o, sp)
		}
		o.WriteByte(']')
	case 'm':
		o.WriteByte('{')
		for k, e := range x.vals {
			if k > 0 {
				o.WriteByte(',')
			}
			o.WriteString(sp + quote(x.keys[k]) + ":" + sp)
			e.json(o, sp)
		}
		o.WriteByte('}')
	}
}

// plain writes a string without quotes where YAML reads that as a string.
func plain(x string) string {
	ok := x != ""
	for k, c := range x {
		alpha := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
		if !(alpha || k > 0 && (c >= '0' && c <= '9' || c == '.' || c == '-' || c == '/')) {
			ok = false
		}
	}
	switch strings.ToLower(x) {
	case "null", "true", "false", "yes", "no", "on", "off", "y", "n":
		ok = false
	}
	if ok {
		return x
	}
	return quote(x)
}

func (x *node) empty() bool {
	return x.kind == 's' || x.kind == 'l' && len(x.list) == 0 || x.kind == 'm' && len(x.keys) == 0
}

func (x *node) yaml(o *strings.Builder, indent int, str func(string) string) {
	pad := strings.Repeat(" ", indent)
	switch {
	case x.kind == 's':
		o.WriteString(pad + scalar(x.leaf, str) + "\n")
	case x.kind == 'l' && len(x.list) == 0:
		o.WriteString(pad + "[]\n")
	case x.kind == 'm' && len(x.keys) == 0:
		o.WriteString(pad + "{}\n")
	case x.kind == 'l':
		for _, e := range x.list {
			o.WriteString(pad + "-")
			var in strings.Builder
			e.yaml(&in, indent+2, str)
			o.WriteString(" " + strings.TrimLeft(in.String(), " "))
		}
	case x.kind == 'm':
		for k, e := range x.vals {
			o.WriteString(pad + str(x.keys[k]) + ":")
			if e.empty() {
				var in strings.Builder
				e.yaml(&in, 0, str)
				if x.kind == 'm' && in.String() == "null\n" && str("a") == "a" {
					o.WriteString("\n") // a key without a value
					continue
				}
				o.WriteString(" " + in.String())
				continue
			}
			o.WriteByte('\n')
			e.yaml(o, indent+2, str)
		}
	}
}

// texts returns the JSON and YAML spellings.
func (d *Def) texts() (js, ys []string) {
	x := d.node()
	for _, sp := range []string{"", " \n\t"} {
		var o strings.Builder
		x.json(&o, sp)
		js = append(js, o.String())
	}
	for _, st := range []func(string) string{quote, plain} {
		var o strings.Builder
		x.yaml(&o, 0, st)
		ys = append(ys, o.String(), "---\n"+o.String())
	}
	return js, append(ys[:3], js[0])
}

func check(t *mc.T, d *Def) {
	t.Eval(1)
	want := d.want()
	js, ys := d.texts()
	t.At(func() string { return js[0] })
	for _, text := range js {
		text := text
		t.At(func() string { return "JSON " + text })
		var c *pipeline.Config
		if err := json.Unmarshal([]byte(text), &c); err != nil {
			t.Fail("JSON definition refused: %v", err)
		}
		same(t, c, want, "decoded from JSON")
		reencode(t, c, want)
	}
	for _, text := range ys {
		text := text
		t.At(func() string { return "YAML " + text })
		var c *pipeline.Config
		if err := yaml.Unmarshal([]byte(text), &c); err != nil {
			t.Fail("YAML definition refused: %v", err)
		}
		same(t, c, want, "decoded from YAML")
		reencode(t, c, want)
	}
	t.Trans(int64(len(js) + len(ys)))
	t.Outcome(want.Canon())
}

func same(t *mc.T, c *pipeline.Config, want *model.V, what string) {
	if c == nil {
		t.Fail("%s: nothing", what)
	}
	if g := got(c); !model.Equal(g, want) {
		t.Fail("%s: %s, want %s", what, g.Canon(), want.Canon())
	}
}

func reencode(t *mc.T, c *pipeline.Config, want *model.V) {
	data, err := json.Marshal(c)
	if err != nil {
		t.Fail("cannot be encoded as JSON: %v", err)
	}
	var again *pipeline.Config
	if err := json.Unmarshal(data, &again); err != nil {
		t.Fail("re-encoded as %s, which is refused: %v", data, err)
	}
	if again == nil || !model.Equal(numbers(got(again)), numbers(want)) {
		t.Fail("re-encoded as %s, want %s", data, want.Canon())
	}
}

// numbers makes integral floats integers: JSON writes both alike.
func numbers(v *model.V) *model.V {
	c := v.Clone()
	var walk func(x *model.V)
	walk = func(x *model.V) {
		if x.K == model.Float && x.F == math.Trunc(x.F) {
			if x.F >= 0 && x.F < 1<<64 {
				*x = *pr.Signed(u(uint64(x.F)))
			} else if x.F < 0 && x.F >= -(1<<63) {
				*x = *i(int64(x.F))
			}
		}
		for _, e := range x.A {
			walk(e)
		}
		for _, e := range x.O {
			walk(e)
		}
	}
	walk(c)
	return c
}

// run builds pipelines from both formats and compares what they do.
func run(t *mc.T, d *Def, in *model.V) {
	js, ys := d.texts()
	var outs []string
	for k, text := range []string{js[0], ys[0], ys[2]} {
		text := text
		t.At(func() string { return "running " + text })
		var c *pipeline.Config
		var err error
		if k == 0 {
			err = json.Unmarshal([]byte(text), &c)
		} else {
			err = yaml.Unmarshal([]byte(text), &c)
		}
		if err != nil {
			t.Fail("refused: %v", err)
		}
		p, err := pipeline.New(c)
		o := ""
		if err != nil {
			o = "New: " + err.Error()
		} else if e, err := p.Process(model.Build(in)); err != nil {
			o = "Process: " + err.Error()
		} else {
			o = model.Snapshot(e).Canon()
			for _, m := range ph.Read(p) {
				o += " " + m.ID
			}
		}
		outs = append(outs, o)
		if o != outs[0] {
			t.Fail("JSON gives %s, YAML gives %s", outs[0], o)
		}
	}
	t.Trans(3)
	t.Eval(1)
}

func ptr(x string) *string { return &x }

func single(p *Opt) *Def {
	return &Def{ID: ptr("p"), Procs: []Entry{{[]string{"set"}, []*Opt{p}}}, OnFNil: true}
}

var optNames = []string{"target_field", "value", "a.b", "", "ID", "If", "IF", "On_Failure", "on_failures", "config", "Config", "processors", "description", "é \"\\\n", "0", "null", "true", "ignore_missing"}

var idVals = []*string{nil, ptr(""), ptr("x"), ptr("123"), ptr("null"), ptr("a: b # c"), ptr("é\n\x00\"")}

func leaves() []*model.V {
	return []*model.V{n(), b(true), b(false), i(0), i(-1), i(1), i(255), i(1 << 53), i(1<<53 + 1), i(math.MaxInt64), i(math.MinInt64), u(1 << 63), u(math.MaxUint64), f(0.5), f(-0.5), f(1), f(1e21), f(1e-7), f(math.MaxFloat64), f(5e-324), f(1 << 53), s(""), s("x"), s("1"), s("1.0"), s("true"), s("yes"), s("on"), s("null"), s("~"), s("a: b"), s("#x"), s(" x "), s("- x"), s("[x]"), s("{x}"), s("&a"), s("*a"), s("!t"), s("%x"), s("@x"), s("`x"), s("x\ny\n"), s("x\ty"), s("\x00\x1f\x7f\u0085\u2028\ufeff"), s("\U0001F600"), s("'"), s(`"`), s(`\`), s("${x}"), s("2001-01-01"), s("0x10"), s("1e3"), s(".inf"), s("<<"), s("=")}
}

func main() {
	mc.Main(&mc.Check{
		ID: "C14", Level: "exploration",
		Rule: "every definition shape to a size with every combination of id, if, on_failure (absent, null, empty, nested) and options; every option value tree to a size and every scalar in every position; each written as JSON (2 spellings) and YAML (4 spellings), decoded, compared with the meaning, re-encoded and decoded again; pipelines built from both run and compared; distinct by meaning",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"entries": pr.Pick(tier, 3, 4), "option_value_nodes": pr.Pick(tier, 4, 5), "option_pairs": "all pairs of names and scalars", "nesting": pr.Pick(tier, 40, 200)}
		},
		Assumptions: []string{"only values both formats can express (no timestamps, infinities, non-string keys, merge keys)", "id, if and description are strings", "top-level keys other than the four documented ones, and their other spellings, are left open", "an integer is one number whatever Go type holds it", "re-encoding writes an integral float as JSON writes it, without a fraction; both are the same number"},
		Units:       units,
	})
}

func units(tier string, yield func(string, func(*mc.T)) bool) {
	// Options of one processor: every value tree under every name.
	names := []string{"id", "if", "on_failure", "a.b"}
	spec := &model.TreeSpec{Leaves: []*model.V{n(), i(7), s("x"), f(1)}, Names: names}
	for k := 1; k <= pr.Pick(tier, 4, 5); k++ {
		vs := spec.Of(k)
		const block = 200
		for lo := 0; lo < len(vs); lo += block {
			hi := lo + block
			if hi > len(vs) {
				hi = len(vs)
			}
			part := vs[lo:hi]
			if !yield(fmt.Sprintf("values %d nodes, %d..", k, lo), func(t *mc.T) {
				for _, v := range part {
					check(t, single(&Opt{Keys: []string{"value"}, Vals: []*model.V{v}}))
					check(t, single(&Opt{ID: ptr("i"), If: ptr("c"), OnF: []Entry{}, EmptyOnF: true, Keys: []string{"ID", "value"}, Vals: []*model.V{v, v}, Late: true}))
					run(t, single(&Opt{Keys: []string{"target_field", "value"}, Vals: []*model.V{s("t"), v}}), kv("a", i(1)))
				}
				t.Sample(func() string { return part[0].Canon() })
			}) {
				return
			}
		}
	}
	for _, x := range leaves() {
		x := x
		if !yield("scalar "+x.Canon(), func(t *mc.T) {
			for _, y := range leaves() {
				check(t, single(&Opt{Keys: []string{"value", "v2"}, Vals: []*model.V{x, y}}))
				check(t, single(&Opt{Keys: []string{"value"}, Vals: []*model.V{a(x, kv("k", y), a(y, x))}}))
			}
			for _, name := range append(optNames, "id-x") {
				check(t, single(&Opt{Keys: []string{name}, Vals: []*model.V{x}}))
				if name != "id-x" {
					check(t, single(&Opt{Keys: []string{"value"}, Vals: []*model.V{kv(name, x, "z", a(x))}}))
				}
			}
			if x.K == model.String {
				check(t, &Def{ID: ptr(x.S), Desc: ptr(x.S), Procs: []Entry{{[]string{x.S}, []*Opt{{ID: ptr(x.S), If: ptr(x.S), Keys: []string{"k" + x.S}, Vals: []*model.V{x}}}}}, OnF: []Entry{{[]string{x.S}, []*Opt{nil}}}})
			}
			run(t, single(&Opt{Keys: []string{"target_field", "value"}, Vals: []*model.V{s("t"), x}}), kv())
			run(t, single(&Opt{Keys: []string{"target_field", "value"}, Vals: []*model.V{s("t"), a(x, kv("k", x))}}), kv())
		}) {
			return
		}
	}
	// Every pair of option names with every id/if/on_failure setting.
	for _, x := range optNames {
		x := x
		if !yield(fmt.Sprintf("names %q", x), func(t *mc.T) {
			for _, y := range optNames {
				if x == y {
					continue
				}
				for _, id := range idVals {
					for m := 0; m < 8; m++ {
						p := &Opt{ID: id, Keys: []string{x, y}, Vals: []*model.V{i(5), kv("id", s("in"), "on_failure", a(kv("set", kv("id", i(1)))))}, Late: m&4 != 0}
						switch m & 3 {
						case 1:
							p.EmptyOnF = true
						case 2:
							p.NullOnF = true
						case 3:
							p.OnF = []Entry{{[]string{"remove"}, []*Opt{{If: id, Keys: []string{"fields"}, Vals: []*model.V{a(s("a"))}}}}}
							p.If = id
						}
						check(t, single(p))
					}
				}
			}
		}) {
			return
		}
	}
	for _, name := range model.OddNames() {
		name := name
		if !utf8.ValidString(name) || len(name) > 1000 {
			continue // no JSON text holds it, or YAML takes no such name
		}
		if !yield(fmt.Sprintf("name %q", pr.Clip2(name, 40)), func(t *mc.T) {
			for _, v := range []*model.V{i(1), s(name), a(s(name), kv(name, s(name))), kv(name, n(), "z", kv(name, a()))} {
				if name != "id" && name != "if" && name != "on_failure" {
					check(t, single(&Opt{Keys: []string{name, "zz"}, Vals: []*model.V{v, i(1)}}))
				}
				check(t, single(&Opt{ID: ptr(name), If: ptr(name), Keys: []string{"v"}, Vals: []*model.V{v}, OnF: []Entry{{[]string{name}, []*Opt{{ID: ptr(name), Keys: []string{"w"}, Vals: []*model.V{v}}}}}}))
			}
			check(t, &Def{ID: ptr(name), Desc: ptr(name), Procs: []Entry{{[]string{name}, []*Opt{nil}}, {[]string{name}, []*Opt{{}}}}, OnF: []Entry{{[]string{name}, []*Opt{nil}}}})
		}) {
			return
		}
	}
	// Shapes.
	for k := 0; k <= pr.Pick(tier, 3, 4); k++ {
		k := k
		if !ph.Shapes(k, []int{0, 1, 2, 3}, func(sh *ph.Shape) bool {
			if k == 4 && flagSum(sh.Procs)+flagSum(sh.OnFailure) > 3 {
				return true
			}
			return yield("shape "+sh.String(), func(t *mc.T) { shape(t, sh) })
		}) {
			return
		}
	}
	// Long and deep definitions.
	for _, d := range model.Sizes(pr.Pick(tier, 40, 200), 700) {
		d := d
		if !yield(fmt.Sprint("long and deep ", d), func(t *mc.T) {
			for _, sh := range []*ph.Shape{ph.Chain(d, d/2, func(x int) int { return x & 3 }), ph.Deep(d, func(x int) int { return x & 3 })} {
				check(t, &Def{ID: ptr("p"), Desc: ptr("d"), Procs: conv(sh.Procs, 0), OnF: conv(sh.OnFailure, 1)})
			}
			v, w := i(1), kv()
			for k := 0; k < d; k++ {
				v = kv("on_failure", a(v))
				w.O[fmt.Sprint("k", k)] = i(int64(k))
			}
			check(t, single(&Opt{Keys: []string{"value", "w"}, Vals: []*model.V{v, w}}))
			check(t, single(&Opt{Keys: []string{"value"}, Vals: []*model.V{s(strings.Repeat("long text ", d*20))}}))
		}) {
			return
		}
	}
	// Documents that are no definition.
	for k := range holes {
		k := k
		if !yield("no definition: "+holes[k].name, func(t *mc.T) { misshapen(t, k) }) {
			return
		}
	}
	// Entries that are invalid as processors decode alike too.
	yield("odd entries", func(t *mc.T) {
		o := &Opt{Keys: []string{"a"}, Vals: []*model.V{i(1)}}
		es := []Entry{{}, {[]string{"a", "b"}, []*Opt{o, nil}}, {[]string{"id", "on_failure"}, []*Opt{o, o}}, {[]string{""}, []*Opt{nil}}, {[]string{"id"}, []*Opt{{ID: ptr("x")}}}, {[]string{"x"}, []*Opt{{}}}}
		for _, x := range es {
			one := []Entry{x}
			check(t, &Def{Procs: one, OnFNil: true})
			check(t, &Def{ProcsNil: true, OnF: one})
			check(t, &Def{Procs: []Entry{{[]string{"set"}, []*Opt{{OnF: one}}}}, OnFNil: true})
			check(t, &Def{ProcsNil: true, OnF: []Entry{{[]string{"set"}, []*Opt{{ID: ptr("i"), OnF: []Entry{{[]string{"lowercase"}, []*Opt{{OnF: one, Keys: []string{"a"}, Vals: []*model.V{i(1)}}}}}}}}}})
			for _, y := range es {
				for _, z := range es {
					check(t, &Def{Procs: []Entry{{[]string{"set"}, []*Opt{{OnF: []Entry{x, y, z}}}}}, OnF: []Entry{z, y, x}})
				}
				check(t, &Def{ID: ptr("p"), Procs: []Entry{x, y}, OnF: []Entry{y, x}})
				check(t, &Def{Procs: []Entry{{[]string{"set"}, []*Opt{{OnF: []Entry{x, y}}}}}, OnFNil: true})
			}
		}
		for m := 0; m < 16; m++ {
			d := &Def{ProcsNil: m&4 != 0, OnFNil: m&8 != 0}
			if m&1 != 0 {
				d.ID = ptr("x")
			}
			if m&2 != 0 {
				d.Desc = ptr("two\nlines\n")
			}
			check(t, d)
		}
	})
}

// holes are the places of a definition, as the JSON text around them.
var holes = []struct {
	name, pre, post string
	takes           string // kinds it takes: o, a, s
}{
	{"definition", "", "", "o"},
	{"id", `{"id": `, `, "processors": [{"set": {"target_field": "t", "value": "v"}}]}`, "s"},
	{"description", `{"description": `, `, "processors": [{"set": {"target_field": "t", "value": "v"}}]}`, "s"},
	{"processors", `{"id": "p", "processors": `, `}`, "a"},
	{"on_failure", `{"processors": [{"set": {"target_field": "t", "value": "v"}}], "on_failure": `, `}`, "a"},
	{"an entry", `{"processors": [{"set": {"target_field": "t", "value": "v"}}, `, `]}`, "o"},
	{"an entry of on_failure", `{"processors": [], "on_failure": [`, `]}`, "o"},
	{"a processor", `{"processors": [{"set": `, `}]}`, "o"},
	{"a processor of on_failure", `{"processors": [], "on_failure": [{"set": `, `}]}`, "o"},
	{"a processor's id", `{"processors": [{"set": {"target_field": "t", "value": "v", "id": `, `}}]}`, "s"},
	{"a processor's if", `{"processors": [{"set": {"if": `, `, "target_field": "t", "value": "v"}}]}`, "s"},
	{"a processor's on_failure", `{"processors": [{"set": {"target_field": "t", "on_failure": `, `, "value": "v"}}]}`, "a"},
	{"a handler", `{"processors": [{"set": {"target_field": "t", "value": "v", "on_failure": [`, `]}}]}`, "o"},
	{"a handler's options", `{"processors": [{"set": {"target_field": "t", "on_failure": [{"remove": {"fields": ["a"]}}, {"remove": `, `}], "value": "v"}}]}`, "o"},
	{"a handler's on_failure", `{"processors": [{"set": {"on_failure": [{"remove": {"fields": ["a"], "on_failure": `, `}}], "target_field": "t", "value": "v"}}]}`, "a"},
	{"a handler's id", `{"processors": [{"set": {"on_failure": [{"remove": {"fields": ["a"], "id": `, `}}], "target_field": "t", "value": "v"}}]}`, "s"},
}

// misshapen puts values of the wrong kind in one place: neither format may take
// the document for a definition (a scalar in place of a string is open).
func misshapen(t *mc.T, k int) {
	h := holes[k]
	for _, x := range []struct{ kind, text string }{
		{"a", `[1]`}, {"a", `["set"]`}, {"a", `[[]]`}, {"a", `[["set", {}]]`}, {"a", `[true, {}]`}, {"a", `[{}, "x"]`},
		{"o", `{"set": 1}`}, {"o", `{"set": ["target_field", "t"]}`}, {"o", `{"target_field": {"a": 1}, "value": []}`}, {"o", `{"id": ["x"]}`}, {"o", `{"0": {"set": {}}}`},
		{"s", `"x"`}, {"s", `"set"`}, {"s", `"{}"`}, {"s", `"[]"`}, {"s", `"target_field: t"`},
		{"n", `1`}, {"n", `0`}, {"n", `-1.5`}, {"n", `true`}, {"n", `false`},
	} {
		if x.kind == h.takes || x.kind == "n" && h.takes == "s" {
			continue // right, or wrong only further inside
		}
		doc := h.pre + x.text + h.post
		t.At(func() string { return doc })
		for _, js := range []bool{true, false} {
			t.Eval(1)
			var c pipeline.Config
			var err error
			how := "YAML"
			if js {
				how = "JSON"
				err = json.Unmarshal([]byte(doc), &c)
			} else {
				err = yaml.Unmarshal([]byte(doc), &c)
			}
			if err == nil {
				t.Fail("%s takes it as the definition %s", how, mc.Short(fmt.Sprintf("%+v", c)))
			}
			t.Outcome(how + doc)
		}
	}
	// The text around the place is right.
	doc := h.pre + map[string]string{"o": "{}", "a": "[]", "s": `"x"`}[h.takes] + h.post
	var c, d pipeline.Config
	if err := json.Unmarshal([]byte(doc), &c); err != nil {
		t.Fail("JSON refuses %s: %v", doc, err)
	}
	if err := yaml.Unmarshal([]byte(doc), &d); err != nil {
		t.Fail("YAML refuses %s: %v", doc, err)
	}
	t.Sample(func() string { return h.pre + "..." + h.post })
}

func flagSum(ns []*ph.Node) int {
	x := 0
	for _, nd := range ns {
		if nd.IgnoreMissing {
			x++
		}
		if nd.IgnoreFailure {
			x++
		}
		x += flagSum(nd.OnFailure)
	}
	return x
}

var types = []string{"set", "remove", "append", "nosuch", "on_failure", "id"}

// conv turns a shape into entries; flags choose the decoration of each.
func conv(ns []*ph.Node, variant int) []Entry {
	var out []Entry
	for _, nd := range ns {
		p := &Opt{OnF: conv(nd.OnFailure, variant), Late: variant&1 != 0}
		if nd.IgnoreMissing {
			p.ID = ptr(fmt.Sprint("id", nd.Pos))
			p.Keys, p.Vals = append(p.Keys, "ignore_missing", "id2"), append(p.Vals, b(true), a(s("v"), i(int64(nd.Pos))))
		}
		if nd.IgnoreFailure {
			p.If = ptr("a.b == 1")
			p.Keys, p.Vals = append(p.Keys, "value"), append(p.Vals, kv("id", s("no"), "on_failure", a(), "if", n()))
		}
		var o *Opt = p
		if !nd.IgnoreMissing && !nd.IgnoreFailure && len(p.OnF) == 0 && variant&2 != 0 {
			o = nil
		}
		out = append(out, Entry{[]string{types[(nd.Pos+variant)%len(types)]}, []*Opt{o}})
	}
	return out
}

func shape(t *mc.T, sh *ph.Shape) {
	for variant := 0; variant < 6; variant++ {
		check(t, &Def{ID: ptr("p"), Procs: conv(sh.Procs, variant), OnF: conv(sh.OnFailure, variant)})
	}
	t.Sample(func() string {
		js, _ := (&Def{ID: ptr("p"), Procs: conv(sh.Procs, 0), OnF: conv(sh.OnFailure, 0)}).texts()
		return js[0]
	})
}
