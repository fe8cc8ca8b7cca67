// C19: every processor honours its documented options and defaults.
package main

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/andrewkroh/go-sawmill/pkg/config"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"

	_ "github.com/andrewkroh/go-sawmill/pkg/processor/append"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/community_id"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/lowercase"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/remove"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/set"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/uppercase"

	"verif/mc"
	"verif/model"
	"verif/pr"
)

// Option as documented.
type Option struct {
	Name        string      `yaml:"name"`
	Type        string      `yaml:"type"`
	Required    bool        `yaml:"required"`
	Optional    bool        `yaml:"optional"`
	Default     interface{} `yaml:"default"`
	Description string      `yaml:"description"`
}

// Proc as documented.
type Proc struct {
	Name        string
	Description string
	Options     []Option
}

var (
	procs  []Proc
	readme map[string][]row
	text   map[string]string // README text before each table
	index  []string          // names in the README's list
)

type row struct{ name, required, optional, typ, def, desc string }

func repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func load() error {
	data, err := os.ReadFile(filepath.Join(repo(), "pkg/processor/processors.yml"))
	if err != nil {
		return err
	}
	var doc struct {
		Processors []map[string]struct {
			Description   string   `yaml:"description"`
			Configuration []Option `yaml:"configuration"`
		} `yaml:"processors"`
	}
	if err := yaml.Unmarshal(data, &doc); err != nil {
		return err
	}
	for _, p := range doc.Processors {
		for name, d := range p {
			procs = append(procs, Proc{name, d.Description, d.Configuration})
		}
	}
	sort.Slice(procs, func(i, j int) bool { return procs[i].Name < procs[j].Name })
	data, err = os.ReadFile(filepath.Join(repo(), "docs/README.md"))
	if err != nil {
		return err
	}
	readme, text = map[string][]row{}, map[string]string{}
	cur := ""
	for _, line := range strings.Split(string(data), "\n") {
		switch {
		case strings.HasPrefix(line, "### "):
			cur = strings.TrimSpace(line[4:])
			readme[cur] = nil
		case strings.HasPrefix(line, "#"):
			cur = ""
		case strings.HasPrefix(line, "- [") && strings.Contains(line, "](#"):
			index = append(index, line[3:strings.Index(line, "]")])
		case strings.HasPrefix(line, "|") && cur != "":
			c := strings.Split(strings.Trim(line, "|"), "|")
			for k := range c {
				c[k] = strings.TrimSpace(c[k])
			}
			if len(c) < 6 {
				return fmt.Errorf("README row with %d columns: %s", len(c), line)
			}
			if c[0] == "Option" || strings.HasPrefix(c[0], "---") {
				continue
			}
			readme[cur] = append(readme[cur], row{c[0], c[1], c[2], c[3], c[4], strings.Join(c[5:], "|")})
		case cur != "":
			text[cur] += " " + line
		}
	}
	return nil
}

// val is a configured value with what the processor must report.
type val struct {
	in   interface{}
	want interface{} // *model.V for event values
}

func values(typ string, tier string) []val {
	long := strings.Repeat("long.", 1000)
	switch typ {
	case "string":
		var out []val
		for _, s := range []string{"x", "a.b.c", "A b", "é\u2028\U0001F600", `a\.b`, "true", "${x}", " x ", long} {
			out = append(out, val{s, s})
		}
		return out
	case "bool":
		return []val{{true, true}, {false, false}}
	case "uint16":
		var out []val
		for _, n := range []uint64{0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65534, 65535} {
			out = append(out, val{n, uint16(n)}, val{int(n), uint16(n)}, val{int64(n), uint16(n)})
		}
		if tier == "thorough" {
			for n := 0; n < 65536; n++ {
				out = append(out, val{n, uint16(n)})
			}
		}
		return out
	case "[]string":
		return []val{{[]interface{}{"a"}, []string{"a"}}, {[]interface{}{"b.c", "a"}, []string{"b.c", "a"}}, {[]interface{}{"x", "x", "1"}, []string{"x", "x", "1"}}, {[]string{"p", "q", "r"}, []string{"p", "q", "r"}}, {[]string{long}, []string{long}}}
	case "github.com/andrewkroh/go-sawmill/pkg/config.EventValue":
		var out []val
		for _, v := range []*model.V{model.S("x"), model.S(""), model.B(true), model.B(false), model.I(0), model.I(-1), model.I(math.MinInt64), model.U(math.MaxUint64), model.F(1.5), model.A(), model.A(model.S("x"), model.N(), model.A(model.I(1))), model.KV("a", model.I(1), "b.c", model.KV("d", model.A(model.N())))} {
			out = append(out, val{pr.ToGo(v), v})
		}
		return out
	}
	return nil
}

// unusual lists values made of unusual text and of the constants of the sources.
func unusual(typ string) []val {
	var out []val
	names := model.OddNames()
	if typ == "uint16" {
		for n := 0; n < 65536; n++ {
			out = append(out, val{n, uint16(n)})
		}
		return out
	}
	for _, s := range names {
		switch typ {
		case "string":
			out = append(out, val{s, s})
		case "[]string":
			out = append(out, val{[]interface{}{s}, []string{s}}, val{[]interface{}{"a", s, s}, []string{"a", s, s}})
		case "github.com/andrewkroh/go-sawmill/pkg/config.EventValue":
			out = append(out, val{s, model.S(s)}, val{[]interface{}{s, 1}, model.A(model.S(s), model.I(1))})
		}
	}
	switch typ {
	case "[]string":
		for _, n := range model.Sizes(130, 3000) {
			in, want := make([]interface{}, n), make([]string, n)
			for i := range in {
				want[i] = fmt.Sprint("e", i%7, i/3)
				in[i] = want[i]
			}
			out = append(out, val{in, want})
		}
	case "github.com/andrewkroh/go-sawmill/pkg/config.EventValue":
		for _, n := range model.Sizes(0, math.MaxInt32) {
			out = append(out, val{n, model.I(int64(n))}, val{uint64(n), model.I(int64(n))}, val{-n, model.I(int64(-n))}, val{float64(n) + 0.5, model.F(float64(n) + 0.5)})
		}
	}
	return out
}

// bad values that cannot be meant.
func badValues(typ string) []interface{} {
	obj := map[string]interface{}{"a": "b"}
	switch typ {
	case "string":
		return []interface{}{obj}
	case "bool":
		return []interface{}{"perhaps", obj}
	case "uint16":
		return []interface{}{-1, 65536, uint64(math.MaxUint64), "many", obj}
	case "[]string":
		return []interface{}{[]interface{}{obj}}
	}
	return nil
}

// defaultOf is the documented default as the type's Go value.
func defaultOf(o Option) interface{} {
	switch o.Type {
	case "string":
		if o.Default == nil {
			return ""
		}
		return fmt.Sprint(o.Default)
	case "bool":
		b, _ := o.Default.(bool)
		return b
	case "uint16":
		n, _ := o.Default.(int)
		return uint16(n)
	case "[]string":
		return []string(nil)
	}
	return model.N()
}

// fields reads Config() of a processor: option name to value.
func fields(t *mc.T, p processor.Processor) map[string]reflect.Value {
	m := reflect.ValueOf(p).MethodByName("Config")
	if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
		t.Fail("no Config() method")
	}
	c := m.Call(nil)[0]
	out := map[string]reflect.Value{}
	for k := 0; k < c.NumField(); k++ {
		tag := strings.Split(c.Type().Field(k).Tag.Get("config"), ",")[0]
		if tag == "" || tag == "-" {
			continue
		}
		if _, dup := out[tag]; dup {
			t.Fail("two fields for option %s", tag)
		}
		out[tag] = c.Field(k)
	}
	return out
}

func reports(v reflect.Value, want interface{}) (string, bool) {
	if w, ok := want.(*model.V); ok {
		ev, ok := v.Interface().(config.EventValue)
		if !ok {
			return fmt.Sprintf("%T", v.Interface()), false
		}
		e := event.Value(ev)
		g := model.From(&e)
		return g.Canon(), model.Equal(pr.Signed(g), pr.Signed(w))
	}
	if w, ok := want.([]string); ok {
		g, ok := v.Interface().([]string)
		return fmt.Sprintf("%q", g), ok && len(g) == len(w) && (len(w) == 0 || reflect.DeepEqual(g, w))
	}
	return fmt.Sprintf("%#v", v.Interface()), v.Type() == reflect.TypeOf(want) && v.Interface() == want
}

// build makes the processor with a subset of options (value index per option,
// -1 for none) and checks what it reports.
func build(t *mc.T, p Proc, vals [][]val, pick []int) {
	opts := map[string]interface{}{}
	missing := false
	for k, o := range p.Options {
		if pick[k] >= 0 {
			opts[o.Name] = vals[k][pick[k]].in
		} else if o.Required {
			missing = true
		}
	}
	t.At(func() string { return fmt.Sprintf("%s with %s", p.Name, clip(fmt.Sprintf("%#v", opts))) })
	t.Eval(1)
	x, err := registry.NewProcessor(p.Name, opts)
	if missing {
		if err == nil {
			t.Fail("accepted without a required option")
		}
		t.Outcome("refused " + p.Name + fmt.Sprint(pick))
		return
	}
	if err != nil {
		t.Fail("refused: %v", err)
	}
	fs := fields(t, x)
	for k, o := range p.Options {
		v, ok := fs[o.Name]
		if !ok {
			t.Fail("no option %s", o.Name)
		}
		want := defaultOf(o)
		if pick[k] >= 0 {
			want = vals[k][pick[k]].want
		}
		if got, ok := reports(v, want); !ok {
			if w, isV := want.(*model.V); isV {
				want = w.Canon()
			}
			t.Fail("option %s is %s, want %s", o.Name, clip(got), clip(fmt.Sprintf("%#v", want)))
		}
	}
	t.Trans(1)
	t.Outcome(p.Name + fmt.Sprint(pick))
}

func clip(s string) string { return pr.Clip(s) }

func subsets(t *mc.T, p Proc, tier string, lo, hi int) {
	vals := make([][]val, len(p.Options))
	for k, o := range p.Options {
		vals[k] = values(o.Type, "quick")
		if vals[k] == nil {
			t.Fail("option %s has type %s, which the check does not know", o.Name, o.Type)
		}
	}
	pick := make([]int, len(p.Options))
	for set := lo; set < hi; set++ {
		for j := 0; j < 36; j++ {
			for k := range pick {
				pick[k] = -1
				if set&(1<<k) != 0 {
					pick[k] = (j + k*5*(j/9)) % len(vals[k])
				}
			}
			build(t, p, vals, pick)
		}
	}
	t.Sample(func() string { return p.Name })
}

// singles: every value of every option, alone (with the required ones) and with
// all others.
func singles(t *mc.T, p Proc, tier string) {
	vals := make([][]val, len(p.Options))
	for k, o := range p.Options {
		vals[k] = append(values(o.Type, tier), unusual(o.Type)...)
	}
	for k, o := range p.Options {
		for v := range vals[k] {
			for _, all := range []bool{false, true} {
				pick := make([]int, len(p.Options))
				for j := range pick {
					pick[j] = -1
					if all || p.Options[j].Required {
						pick[j] = 0
					}
				}
				pick[k] = v
				build(t, p, vals, pick)
			}
		}
		for _, b := range badValues(o.Type) {
			opts := map[string]interface{}{}
			for j, q := range p.Options {
				if q.Required {
					opts[q.Name] = vals[j][0].in
				}
			}
			opts[o.Name] = b
			t.At(func() string { return fmt.Sprintf("%s with %#v", p.Name, opts) })
			t.Eval(1)
			if _, err := registry.NewProcessor(p.Name, opts); err == nil {
				t.Fail("accepted")
			}
		}
	}
}

func docs(t *mc.T) {
	names := map[string]bool{}
	for _, p := range procs {
		names[p.Name] = true
		t.At(func() string { return "README table of " + p.Name })
		rows, ok := readme[p.Name]
		if !ok {
			t.Fail("not documented")
		}
		if words(text[p.Name]) != words(p.Description) {
			t.Fail("README says %q, the schema %q", words(text[p.Name]), words(p.Description))
		}
		if len(rows) != len(p.Options) {
			t.Fail("%d options in the README, %d in the schema", len(rows), len(p.Options))
		}
		byName := map[string]row{}
		for _, r := range rows {
			byName[r.name] = r
		}
		for _, o := range p.Options {
			r, ok := byName[o.Name]
			if !ok {
				t.Fail("option %s is not in the README", o.Name)
			}
			typ := o.Type
			if strings.Contains(typ, "EventValue") {
				typ = "any"
			}
			def := ""
			if d := defaultOf(o); o.Default != nil && !reflect.ValueOf(d).IsZero() {
				def = fmt.Sprint(d)
			}
			if r.typ != typ || r.def != def || (r.required != "") != o.Required || (r.optional != "") != o.Optional || words(r.desc) != words(o.Description) {
				t.Fail("option %s: README has %+v, schema has %+v", o.Name, r, o)
			}
			t.Eval(1)
			t.Outcome("doc " + p.Name + o.Name)
		}
	}
	t.Atf("README")
	for name := range readme {
		if !names[name] {
			t.Fail("documents %s, which is not in the schema", name)
		}
	}
	sort.Strings(index)
	var want []string
	for _, p := range procs {
		want = append(want, p.Name)
	}
	if !reflect.DeepEqual(index, want) {
		t.Fail("lists %v, the schema has %v", index, want)
	}
}

func words(s string) string { return strings.Join(strings.Fields(s), " ") }

// exact: the processor has exactly the schema's options.
func exact(t *mc.T, p Proc) {
	opts := map[string]interface{}{}
	for _, o := range p.Options {
		opts[o.Name] = values(o.Type, "quick")[0].in
	}
	t.At(func() string { return p.Name + " with all options" })
	x, err := registry.NewProcessor(p.Name, opts)
	if err != nil {
		t.Fail("refused: %v", err)
	}
	fs := fields(t, x)
	for _, o := range p.Options {
		if _, ok := fs[o.Name]; !ok {
			t.Fail("no option %s", o.Name)
		}
		delete(fs, o.Name)
	}
	for name := range fs {
		t.Fail("undocumented option %s", name)
	}
	t.Eval(1)
}

// cli runs the command line tool with a pipeline of one processor.
func cli(t *mc.T, name string, opts map[string]interface{}, want bool) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "cli")
	if err != nil {
		t.Fail("harness: %v", err)
	}
	defer os.RemoveAll(dir)
	data, _ := yaml.Marshal(map[string]interface{}{"id": "x", "processors": []interface{}{map[string]interface{}{name: opts}}})
	file := filepath.Join(dir, "p.yml")
	if err := os.WriteFile(file, data, 0o600); err != nil {
		t.Fail("harness: %v", err)
	}
	t.At(func() string { return "sawmill -p with " + string(data) })
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_SCRATCH"), "sawmill"), "-p", file, "-metrics-addr", "127.0.0.1:0")
	out, err := cmd.CombinedOutput()
	if (err == nil) != want {
		t.Fail("exit %v, output %s", err, out)
	}
	t.Eval(1)
	t.Outcome("cli " + string(data))
}

func main() {
	mc.Main(&mc.Check{
		ID: "C19", Level: "exploration", Setup: load,
		Rule: "every processor of the schema x every subset of its options x values by type (each boundary value of each option alone and together with the others); values outside the type; README rows against the schema; the command line tool with every processor; distinct by (processor, option values)",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"option_subsets": "all", "value_vectors_per_subset": 36, "seed_values": pr.Pick(tier, 11, 65536)}
		},
		Assumptions: []string{"a required option given as an empty string or list, and scalars of another type that can be read as the option's type, are left open", "event values go-ucfg does not keep are C15's known findings"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			if !yield("README", docs) {
				return
			}
			if !yield("schema", func(t *mc.T) {
				if len(procs) < 6 {
					t.Fail("only %d processors in the schema", len(procs))
				}
			}) {
				return
			}
			for _, p := range procs {
				p := p
				if !yield("options of "+p.Name, func(t *mc.T) { exact(t, p) }) || !yield("values of "+p.Name, func(t *mc.T) { singles(t, p, tier) }) {
					return
				}
				all := 1 << len(p.Options)
				for lo := 0; lo < all; lo += 64 {
					lo, hi := lo, lo+64
					if hi > all {
						hi = all
					}
					if !yield(fmt.Sprintf("subsets of %s %d..", p.Name, lo), func(t *mc.T) { subsets(t, p, tier, lo, hi) }) {
						return
					}
				}
				if !yield("sawmill with "+p.Name, func(t *mc.T) {
					opts := map[string]interface{}{}
					for _, o := range p.Options {
						if o.Required {
							opts[o.Name] = values(o.Type, "quick")[0].in
						}
					}
					cli(t, p.Name, opts, true)
					for _, o := range p.Options {
						one := map[string]interface{}{}
						for k, v := range opts {
							one[k] = v
						}
						one[o.Name] = values(o.Type, "quick")[0].in
						cli(t, p.Name, one, true)
						if o.Required {
							delete(one, o.Name)
							cli(t, p.Name, one, false)
						}
					}
				}) {
					return
				}
			}
			yield("sawmill with others", func(t *mc.T) {
				for _, name := range []string{"nosuch", "fail", "drop", "rename", "gsub", "json", "split", "script", "foreach", "convert", "trim", "uri_parts", "date", "grok", "Set", "SET", "set "} {
					cli(t, name, map[string]interface{}{"field": "a", "fields": []string{"a"}, "target_field": "t", "value": "x"}, false)
				}
			})
		},
	})
}
