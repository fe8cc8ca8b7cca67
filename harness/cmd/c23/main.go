// C23: code and docs generated from a schema implement that schema.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"gopkg.in/yaml.v3"

	"verif/mc"
)

var (
	scratch = os.Getenv("VERIF_SCRATCH")
	verif   string
)

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "c23:", err)
		os.Exit(3)
	}
}

// value is an option value as the probe takes it.
type value struct {
	Kind string
	S    string            `json:",omitempty"`
	I    int64             `json:",omitempty"`
	F    float64           `json:",omitempty"`
	B    bool              `json:",omitempty"`
	L    []string          `json:",omitempty"`
	M    map[string]string `json:",omitempty"`
}

type sample struct {
	yaml interface{} // default in the schema
	show string      // how the probe shows it
}

type typ struct {
	name, goType, doc string
	zero              string
	defaults          []sample // the first is the zero value
	val               value
	show              string
	noRequired        bool // go-ucfg does not tell a missing value from the zero value
}

func sv(x interface{}) string { return fmt.Sprintf("%#v", x) }

const eventValue = "github.com/andrewkroh/go-sawmill/pkg/config.EventValue"

var types = []typ{
	{"string", "string", "string", sv(""), []sample{{"", sv("")}, {"x", sv("x")}, {"a\"\\b\n{{.}}%s`", sv("a\"\\b\n{{.}}%s`")}, {"a.b|c é", sv("a.b|c é")}, {"0", sv("0")}, {"false", sv("false")}, {"null", sv("null")}, {"nil", sv("nil")}, {"[]", sv("[]")}, {"<no value>", sv("<no value>")}, {"-", sv("-")}}, value{Kind: "string", S: "v w"}, sv("v w"), false},
	{"bool", "bool", "bool", sv(false), []sample{{false, sv(false)}, {true, sv(true)}}, value{Kind: "bool", B: true}, sv(true), true},
	{"int", "int", "int", sv(int(0)), []sample{{0, sv(int(0))}, {-7, sv(int(-7))}, {123456789, sv(int(123456789))}}, value{Kind: "int", I: -3}, sv(int(-3)), true},
	{"int64", "int64", "int64", sv(int64(0)), []sample{{0, sv(int64(0))}, {int64(-1 << 63), sv(int64(-1 << 63))}}, value{Kind: "int", I: 1<<62 + 1}, sv(int64(1<<62 + 1)), true},
	{"int8", "int8", "int8", sv(int8(0)), []sample{{0, sv(int8(0))}, {-128, sv(int8(-128))}}, value{Kind: "int", I: 127}, sv(int8(127)), true},
	{"uint", "uint", "uint", sv(uint(0)), []sample{{0, sv(uint(0))}, {7, sv(uint(7))}}, value{Kind: "int", I: 3}, sv(uint(3)), true},
	{"uint16", "uint16", "uint16", sv(uint16(0)), []sample{{0, sv(uint16(0))}, {65535, sv(uint16(65535))}}, value{Kind: "int", I: 65535}, sv(uint16(65535)), true},
	{"uint64", "uint64", "uint64", sv(uint64(0)), []sample{{0, sv(uint64(0))}, {uint64(1<<64 - 1), sv(uint64(1<<64 - 1))}}, value{Kind: "int", I: 9}, sv(uint64(9)), true},
	{"float64", "float64", "float64", sv(float64(0)), []sample{{0.0, sv(float64(0))}, {1.5, sv(1.5)}, {-1e21, sv(-1e21)}, {2, sv(2.0)}}, value{Kind: "float", F: 0.25}, sv(0.25), true},
	{"[]string", "[]string", "[]string", "empty", nil, value{Kind: "list", L: []string{"a", "b c"}}, sv([]string{"a", "b c"}), false},
	{"[]int", "[]int", "[]int", "empty", nil, value{Kind: "list", L: []string{"1", "2"}}, sv([]int{1, 2}), false},
	{"map[string]interface{}", "map[string]interface {}", "map", "empty", nil, value{Kind: "map", M: map[string]string{"k": "v"}}, sv(map[string]interface{}{"k": "v"}), false},
	{"map[string]string", "map[string]string", "map[string]string", "empty", nil, value{Kind: "map", M: map[string]string{"k": "v"}}, sv(map[string]string{"k": "v"}), false},
	{"time.Duration", "time.Duration", "time.Duration", sv(time.Duration(0)), nil, value{Kind: "string", S: "5s"}, sv(5 * time.Second), false},
	{eventValue, "config.EventValue", "any", "null<nil>", nil, value{Kind: "string", S: "v"}, `"v"<nil>`, true},
}

type option struct {
	Name        string      `yaml:"name"`
	Type        string      `yaml:"type"`
	Required    bool        `yaml:"required,omitempty"`
	Optional    bool        `yaml:"optional,omitempty"`
	Default     interface{} `yaml:"default,omitempty"`
	Description string      `yaml:"description,omitempty"`

	t       *typ
	def     string // shown default
	hasDef  bool
	defZero bool
}

// MarshalYAML writes zero defaults too.
func (o option) MarshalYAML() (interface{}, error) {
	n := &yaml.Node{Kind: yaml.MappingNode}
	put := func(k string, v interface{}) {
		var kn, vn yaml.Node
		must(kn.Encode(k))
		must(vn.Encode(v))
		if _, ok := v.(string); ok {
			vn.Style = yaml.DoubleQuotedStyle // yaml.v3 misreads some block texts it writes
		}
		n.Content = append(n.Content, &kn, &vn)
	}
	put("name", o.Name)
	put("type", o.Type)
	if o.Required {
		put("required", true)
	}
	if o.Optional {
		put("optional", true)
	}
	if o.hasDef {
		put("default", o.Default)
	}
	if o.Description != "" {
		put("description", o.Description)
	}
	return n, nil
}

func opt(name string, t *typ, mark string, def int, desc string) option {
	o := option{Name: name, Type: t.name, Description: desc, t: t, def: t.zero, defZero: true}
	o.Required = mark == "required"
	o.Optional = mark == "optional"
	if def >= 0 && def < len(t.defaults) {
		o.hasDef = true
		o.Default = t.defaults[def].yaml
		o.def = t.defaults[def].show
		o.defZero = def == 0
	}
	return o
}

type processor struct {
	name, desc string
	opts       []option
}

func (p processor) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s (%s):", p.name, mc.Short(p.desc))
	for _, o := range p.opts {
		fmt.Fprintf(&b, " {%s %s required=%v optional=%v default=%v %s}", o.Name, o.Type, o.Required, o.Optional, o.Default, mc.Short(o.Description))
	}
	return b.String()
}

// schema writes processors.yml.
func schema(ps []processor) []byte {
	type body struct {
		Description   yaml.Node `yaml:"description"`
		Configuration []option  `yaml:"configuration,omitempty"`
	}
	var doc struct {
		Processors []map[string]body `yaml:"processors"`
	}
	for _, p := range ps {
		doc.Processors = append(doc.Processors, map[string]body{p.name: {yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: p.desc, Style: yaml.DoubleQuotedStyle}, p.opts}})
	}
	data, err := yaml.Marshal(doc)
	must(err)
	return data
}

type result struct {
	code int
	out  string
}

func runTool(dir, tool string, args ...string) result {
	cmd := exec.Command(filepath.Join(scratch, tool), args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/local/go/bin:/usr/bin:/bin", "HOME=/root", "TMPDIR=" + scratch}
	data, err := cmd.CombinedOutput()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		must(err)
	}
	return result{cmd.ProcessState.ExitCode(), string(data)}
}

func files(dir string) map[string]string {
	out := map[string]string{}
	filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			data, err := os.ReadFile(path)
			must(err)
			rel, _ := filepath.Rel(dir, path)
			out[rel] = string(data)
		}
		return nil
	})
	return out
}

func sameFiles(t *mc.T, a, b map[string]string, what string) {
	for f, s := range a {
		if r, ok := b[f]; !ok || r != s {
			t.Fail("%s changed %s", what, f)
		}
	}
	for f := range b {
		if _, ok := a[f]; !ok {
			t.Fail("%s added %s", what, f)
		}
	}
}

// module makes a module directory for generated packages.
func module() string {
	dir, err := os.MkdirTemp(scratch, "mod-")
	must(err)
	gomod, err := os.ReadFile(filepath.Join(scratch, "go.mod"))
	must(err)
	must(os.WriteFile(filepath.Join(dir, "go.mod"), bytes.Replace(gomod, []byte("module verif\n"), []byte("module gen\n"), 1), 0o644))
	gosum, err := os.ReadFile(filepath.Join(scratch, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(dir, "go.sum"), gosum, 0o644))
	return dir
}

// request to the probe.
type request struct {
	Name string
	Opts map[string]value
}

type field struct{ Option, GoType, Value, Validate string }

type reply struct {
	Err    string
	Fields []field
	Result string
}

// build compiles the packages and a probe that imports them.
func build(t *mc.T, dir string, pkgs []string) string {
	probe, err := os.ReadFile(filepath.Join(verif, "harness/cmd/c23/probe.go.txt"))
	must(err)
	must(os.MkdirAll(filepath.Join(dir, "probe"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "probe/main.go"), probe, 0o644))
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n")
	for _, p := range pkgs {
		fmt.Fprintf(&b, "\t_ %q\n", "gen/"+p)
	}
	b.WriteString(")\n")
	must(os.WriteFile(filepath.Join(dir, "probe/imports.go"), []byte(b.String()), 0o644))
	bin := filepath.Join(dir, "probe/probe")
	cmd := exec.Command("go", "build", "-buildvcs=false", "-p", "2", "-o", bin, "./probe")
	cmd.Dir = dir
	if out, err := cmd.CombinedOutput(); err != nil {
		s := string(out)
		if len(s) > 3000 {
			s = s[:3000]
		}
		t.Fail("the generated packages do not compile: %s", s)
	}
	t.Eval(0)
	return bin
}

func ask(t *mc.T, bin string, reqs []request) []reply {
	in, err := json.Marshal(reqs)
	must(err)
	cmd := exec.Command(bin)
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		t.Fail("a program with the generated packages fails: %v %s", err, mc.Short(errb.String()))
	}
	var reps []reply
	must(json.Unmarshal(out.Bytes(), &reps))
	if len(reps) != len(reqs) {
		t.Fail("probe: %d replies", len(reps))
	}
	return reps
}

// batch checks both generators on one schema.
func batch(t *mc.T, ps []processor) {
	dir := module()
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "src")
	must(os.MkdirAll(src, 0o755))
	yml := filepath.Join(src, "processors.yml")
	t.At(func() string { return string(schema(ps)) })
	must(os.WriteFile(yml, schema(ps), 0o644))
	if r := runTool(src, "gen", "-p", "processors.yml"); r.code != 0 {
		t.Fail("the generator fails: %s", mc.Short(r.out))
	}
	t.Trans(1)
	first := files(src)
	if r := runTool(dir, "gen", "-p", yml); r.code != 0 {
		t.Fail("the generator fails when run again: %s", mc.Short(r.out))
	}
	t.Trans(1)
	sameFiles(t, first, files(src), "a second run of the generator")
	var pkgs []string
	for _, p := range ps {
		pkgs = append(pkgs, "src/"+p.name)
	}
	bin := build(t, dir, pkgs)
	docs(t, dir, yml, ps)
	var reqs []request
	var checks []func(r reply)
	for _, p := range ps {
		p := p
		minimal := func(except string) map[string]value {
			m := map[string]value{}
			for _, o := range p.opts {
				if o.Required && o.defZero && o.Name != except {
					m[o.Name] = o.t.val
				}
			}
			return m
		}
		add := func(opts map[string]value, check func(r reply)) {
			reqs = append(reqs, request{p.name, opts})
			checks = append(checks, func(r reply) {
				t.At(func() string { return fmt.Sprintf("processor %v built with %v", p, opts) })
				t.Eval(1)
				check(r)
			})
		}
		config := func(opts map[string]value) func(r reply) {
			return func(r reply) {
				if r.Err != "" {
					t.Fail("refused: %s", r.Err)
				}
				got := map[string]field{}
				for _, f := range r.Fields {
					if _, dup := got[f.Option]; dup {
						t.Fail("option %s twice", f.Option)
					}
					got[f.Option] = f
				}
				for _, o := range p.opts {
					f, ok := got[o.Name]
					if !ok {
						t.Fail("no option %s", o.Name)
					}
					delete(got, o.Name)
					if f.GoType != o.t.goType {
						t.Fail("option %s has type %s, want %s", o.Name, f.GoType, o.t.goType)
					}
					want := o.def
					if _, set := opts[o.Name]; set {
						want = o.t.show
					}
					if f.Value != want {
						t.Fail("option %s is %s, want %s", o.Name, f.Value, want)
					}
				}
				for n := range got {
					t.Fail("an option %q that the schema does not have", n)
				}
				if r.Result != "{} <nil>" {
					t.Fail("a processor without a process function made of {}: %s", r.Result)
				}
				t.Outcome(fmt.Sprint(p.opts, r.Fields))
			}
		}
		min := minimal("")
		add(min, config(min))
		for _, o := range p.opts {
			o := o
			m := minimal("")
			m[o.Name] = o.t.val
			add(m, config(m))
			// An option's required mark: refused when empty, or marked in the
			// config struct (how a value beats the default is left open).
			if o.Type == "string" && o.hasDef && !o.defZero {
				var mark, seen bool
				add(minimal(""), func(r reply) { mark, seen = marked(r, o.Name), r.Err == "" })
				blank := minimal("")
				blank[o.Name] = value{Kind: "string"}
				add(blank, func(r reply) {
					if seen && mark != o.Required && (r.Err != "") != o.Required {
						t.Fail("option %s: required mark is %v, want %v", o.Name, mark, o.Required)
					}
				})
			}
			if o.Required && o.defZero {
				add(minimal(o.Name), func(r reply) {
					if r.Err == "" && o.t.noRequired && marked(r, o.Name) && t.KnownFinding("required-not-enforced") {
						return
					}
					if r.Err == "" {
						t.Fail("accepted without the required option %s", o.Name)
					}
				})
			}
		}
	}
	for i, r := range ask(t, bin, reqs) {
		checks[i](r)
		t.Trans(1)
	}
	for _, p := range ps {
		t.Sample(p.String)
	}
}

// marked: the config struct marks the option as required.
func marked(r reply, option string) bool {
	for _, f := range r.Fields {
		if f.Option == option {
			return strings.Contains(f.Validate, "required")
		}
	}
	return false
}

func norm(s string) string { return strings.Join(strings.Fields(s), " ") }

// cells splits a table row.
func cells(line string) []string {
	line = strings.TrimSpace(line)
	if !strings.HasPrefix(line, "|") {
		return nil
	}
	var out []string
	cur := ""
	for i := 1; i < len(line); i++ {
		switch {
		case line[i] == '\\' && i+1 < len(line) && line[i+1] == '|':
			cur += "|"
			i++
		case line[i] == '|':
			out = append(out, norm(cur))
			cur = ""
		default:
			cur += line[i : i+1]
		}
	}
	return out
}

// docs checks the generated README.
func docs(t *mc.T, dir, yml string, ps []processor) {
	out := filepath.Join(dir, "README.md")
	if r := runTool(dir, "gendocs", "-p", yml, "-o", out); r.code != 0 {
		t.Fail("the docs generator fails: %s", mc.Short(r.out))
	}
	data, err := os.ReadFile(out)
	if err != nil {
		t.Fail("the docs generator wrote nothing: %v", err)
	}
	if r := runTool(dir, "gendocs", "-p", yml, "-o", out); r.code != 0 {
		t.Fail("the docs generator fails when run again: %s", mc.Short(r.out))
	}
	again, err := os.ReadFile(out)
	must(err)
	if !bytes.Equal(data, again) {
		t.Fail("the docs generator writes another file when run again")
	}
	t.Trans(2)
	sections := map[string]string{}
	cur := ""
	for _, l := range strings.Split(string(data), "\n") {
		if strings.HasPrefix(l, "### ") {
			cur = strings.TrimSpace(l[4:])
			if _, dup := sections[cur]; dup {
				t.Fail("two sections %q", cur)
			}
			sections[cur] = ""
			continue
		}
		if cur != "" {
			sections[cur] += l + "\n"
		}
	}
	for _, p := range ps {
		p := p
		t.At(func() string { return fmt.Sprintf("documentation of %v", p) })
		text, ok := sections[p.name]
		if !ok {
			t.Fail("no section %q", p.name)
		}
		if !strings.Contains(norm(text), norm(p.desc)) {
			t.Fail("the section lacks the description: %s", mc.Short(text))
		}
		if !strings.Contains(string(data), "["+p.name+"]") {
			t.Fail("the list of processors lacks %s", p.name)
		}
		rows := map[string][]string{}
		head := false
		for _, l := range strings.Split(text, "\n") {
			c := cells(l)
			if c == nil {
				continue
			}
			if len(c) > 0 && strings.HasPrefix(c[0], "---") {
				head = true
				continue
			}
			if !head {
				want := []string{"Option", "Required", "Optional", "Type", "Default", "Description"}
				if fmt.Sprint(c) != fmt.Sprint(want) {
					t.Fail("table columns %q", c)
				}
				continue
			}
			if len(c) != 6 {
				t.Fail("a table row of %d cells: %s", len(c), l)
			}
			if _, dup := rows[c[0]]; dup {
				t.Fail("two rows for %s", c[0])
			}
			rows[c[0]] = c
		}
		mark := func(b bool) string {
			if b {
				return "x"
			}
			return ""
		}
		for _, o := range p.opts {
			r, ok := rows[o.Name]
			if !ok {
				t.Fail("no row for option %s", o.Name)
			}
			delete(rows, o.Name)
			def := ""
			if o.hasDef {
				def = norm(fmt.Sprint(o.Default))
			}
			okDef := r[4] == def || o.hasDef && o.defZero && r[4] == ""
			if r[1] != mark(o.Required) || r[2] != mark(o.Optional) || r[3] != o.t.doc || !okDef || r[5] != norm(o.Description) {
				t.Fail("row %q does not describe option %s", r, o.Name)
			}
			t.Eval(1)
		}
		for n := range rows {
			t.Fail("a row %q for no option", n)
		}
		delete(sections, p.name)
	}
	for n := range sections {
		t.Fail("a section %q for no processor", n)
	}
}

var descs = []string{
	"Does something.", "", strings.Repeat("A long text that has to be wrapped somewhere. ", 12) + "End.", "Two\nlines.", "Ends with a newline.\n", "One.\n\nTwo.\n\nThree.",
	"Quotes \" ' ` and */ ends /* starts.", "Percent %s %d {{ .Name }} <b> & more.", "Unicode é 世界 ünï.", "  leading spaces", "// slashes // here", "a\tb", strings.Repeat("x", 300),
	"\n\nBlank lines first.\n\n\n", "Pipes | in | the text.", "- a\n- list\n", "backslash \\n \\", "[link](http://x/y?a=b&c=d)", "package main", "a: b # c", strings.Repeat("word ", 2000),
}

var marks = []string{"required", "optional", ""}

func units(tier string, yield func(string, func(*mc.T)) bool) {
	th := tier == "thorough"
	ok := true
	y := func(k string, f func(*mc.T)) {
		if ok {
			ok = yield(k, f)
		}
	}
	var all []processor
	n := 0
	add := func(desc string, opts ...option) {
		all = append(all, processor{fmt.Sprintf("p%d", n), desc, opts})
		n++
	}
	// Every type with every mark and default.
	k := 0
	for i := range types {
		for _, m := range marks {
			for d := -1; d < len(types[i].defaults); d++ {
				add(descs[k%len(descs)], opt("o", &types[i], m, d, descs[(k/2)%len(descs)]))
				k++
			}
		}
	}
	// No options and many.
	add("No options.")
	for _, c := range []int{2, 5, 20} {
		var os []option
		for i := 0; i < c; i++ {
			os = append(os, opt(fmt.Sprintf("o_%s", strings.Repeat("z", c-i)), &types[i%len(types)], marks[i%3], i%3-1, descs[i%len(descs)]))
		}
		add("Many.", os...)
	}
	// Every description on a processor and on an option.
	for i, d := range descs {
		add(d, opt("o", &types[i%len(types)], "optional", -1, d), opt("p", &types[0], "optional", 1, descs[(i+1)%len(descs)]))
	}
	// Names.
	names := []string{"a", "field", "a_b", "source_ip", "id", "iana_number", "type", "func", "map", "string", "error", "value_two", "x9", "process", "config", "ip", "icmp_type", "mac", "processor", "event", "new", "nil", "true", "len", "default", "interface", "camelCase", strings.Repeat("long_", 20) + "name", "on_failure", "if", "url", "as", "uid_x", "source.ip", "@timestamp", "a.b_c", "http.request.id"}
	for i, nm := range names {
		add("Names.", opt(nm, &types[i%9], marks[i%3], 1, "x"))
		add("Names.", opt(nm, &types[i%len(types)], "optional", -1, "x"), opt("zz_"+nm, &types[0], "optional", 1, "x"))
	}
	for _, nm := range []string{"a", "field", "a_b", "source_ip", "md5", "url_decode", "string", "error", "processor", "registry", "lowercase2", "event", "xconfig", "nil", "len", "id", "x_y_z"} {
		all = append(all, processor{nm, "Name.", []option{opt("o", &types[0], "required", -1, "x"), opt("p", &types[1], "optional", 1, "x")}})
	}
	// Pairs of types.
	for i := range types {
		for j := range types {
			switch {
			case th:
				for _, m := range marks {
					for _, m2 := range marks {
						add("Pair.", opt("b_two", &types[i], m, (i+j)%3-1, "x"), opt("a_one", &types[j], m2, i%3-1, "y"))
					}
				}
			case (i+j)%3 == 0:
				add("Pair.", opt("b_two", &types[i], marks[i%3], (i+j)%3-1, "x"), opt("a_one", &types[j], marks[j%3], i%3-1, "y"))
			}
		}
	}
	if th {
		for i := range types {
			for j := range types {
				for l := range types {
					if (i+j+l)%4 == 0 {
						add("Triple.", opt("c", &types[i], marks[i%3], l%3-1, "x"), opt("a", &types[j], marks[j%3], i%3-1, "y"), opt("b", &types[l], marks[l%3], j%3-1, "z"))
					}
				}
			}
		}
	}
	size := 40
	for i := 0; i < len(all); i += size {
		end := i + size
		if end > len(all) {
			end = len(all)
		}
		ps := all[i:end]
		y(fmt.Sprintf("schema with processors %d to %d", i, end-1), func(t *mc.T) { batch(t, ps) })
	}
	// Schemas with few processors, in every order.
	y("small schemas", func(t *mc.T) {
		x := processor{"x", "X.", []option{opt("o", &types[0], "required", -1, "a")}}
		yy := processor{"y", "Y.", nil}
		z := processor{"a_z", "Z.", []option{opt("o", &types[2], "", 1, "a"), opt("b", &types[14], "optional", -1, "v")}}
		for _, ps := range [][]processor{{x}, {yy}, {x, yy}, {yy, x}, {x, yy, z}, {z, yy, x}, {yy, z, x}} {
			batch(t, ps)
		}
	})
	y("merge keys", func(t *mc.T) { mergeKeys(t) })
	// Histories of hand edits and runs.
	depth := 3
	if th {
		depth = 4
	}
	for a := range edits {
		for b := range edits {
			a, b := a, b
			y(fmt.Sprintf("edits %s, %s", edits[a].name, edits[b].name), func(t *mc.T) { histories(t, []int{a, b}, depth) })
		}
	}
	y("failures", failures)
}

// mergeKeys: a schema with common fields, anchors and merge keys, as the
// repository's own is written; two processors in one list entry.
func mergeKeys(t *mc.T) {
	text := `---
common_fields:
  field: &field
    name: field
    type: string
    required: true
    description: Source field.
  extra: &extra
    name: extra
    type: bool
    optional: true
    default: true
    description: >-
      Folded
      text.
processors:
  - one:
      description: |-
        First
        processor.
      configuration:
        - <<: *extra
        - <<: *field
        - <<: *field
          name: other
          required: false
          type: '[]string'
  - two:
      description: Second.
      configuration:
        - <<: *field
    three:
      description: Third.
      configuration:
        - <<: *extra
`
	dir := module()
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "src")
	must(os.MkdirAll(src, 0o755))
	yml := filepath.Join(src, "processors.yml")
	must(os.WriteFile(yml, []byte(text), 0o644))
	t.Atf("schema with merge keys:\n" + text)
	if r := runTool(src, "gen"); r.code != 0 {
		t.Fail("the generator fails: %s", mc.Short(r.out))
	}
	field := opt("field", &types[0], "required", -1, "Source field.")
	extra := opt("extra", &types[1], "optional", 1, "Folded text.")
	other := opt("other", &types[9], "", -1, "Source field.")
	docs(t, dir, yml, []processor{{"one", "First processor.", []option{extra, field, other}}, {"two", "Second.", []option{field}}, {"three", "Third.", []option{extra}}})
	bin := build(t, dir, []string{"src/one", "src/two", "src/three"})
	f := value{Kind: "string", S: "v w"}
	reps := ask(t, bin, []request{{"one", nil}, {"one", map[string]value{"field": f}}, {"two", nil}, {"two", map[string]value{"field": f}}, {"three", nil}})
	want := []string{"error", "extra=true,field=" + sv("v w") + ",other=empty", "error", "field=" + sv("v w"), "extra=true"}
	for i, r := range reps {
		got := "error"
		if r.Err == "" {
			var fs []string
			for _, f := range r.Fields {
				fs = append(fs, f.Option+"="+f.Value)
			}
			sort.Strings(fs)
			got = strings.Join(fs, ",")
		}
		if got != want[i] {
			t.Fail("case %d: configuration is %s, want %s (%s)", i, got, want[i], r.Err)
		}
		t.Eval(1)
	}
}

const procName = "ed_it"

// world is a package directory under edit.
type world struct {
	src      string
	opts     []option
	hand     string // content of the hand-written file, "" if none
	handFile string
}

func (w *world) path(f string) string { return filepath.Join(w.src, procName, f) }

// setHand leaves one hand-written file, or none.
func (w *world) setHand(file, text string) {
	os.Remove(w.path("process.go"))
	os.Remove(w.path("impl.go"))
	if file != "" {
		w.write(file, text)
	}
	w.handFile, w.hand = file, text
}

func (w *world) write(f, s string) {
	must(os.MkdirAll(filepath.Join(w.src, procName), 0o755))
	must(os.WriteFile(w.path(f), []byte(s), 0o644))
}

const handWritten = `package ed_it

import (
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
)

// Process is written by hand.
func (p *EdIt) Process(e processor.Event) error {
	e.Put("hand", event.String("written"))
	return nil
}
`

const helper = `package ed_it

type helper struct{}

func (helper) Process(n int) int { return n }

// process is not Process.
func process() {}
`

const testFile = `package ed_it_test

type fake struct{}

func (*fake) Process() {}

// Another package's type of the same name.
type EdIt struct{}

func (*EdIt) Process() {}
`

var edits = []struct {
	name string
	do   func(w *world)
}{
	{"generate", nil},
	{"write process.go", func(w *world) { w.setHand("process.go", handWritten) }},
	{"write impl.go with a value receiver", func(w *world) {
		w.setHand("impl.go", strings.Replace(handWritten, "(p *EdIt)", "(EdIt)", 1))
	}},
	{"delete the hand-written file", func(w *world) { w.setHand("", "") }},
	{"delete the generated file", func(w *world) { os.Remove(w.path(procName + ".go")) }},
	{"write a helper with its own Process", func(w *world) { w.write("a_helper.go", helper) }},
	{"write a test file and files that are not Go", func(w *world) {
		w.write("z_test.go", testFile)
		w.write("process.go.orig", handWritten)
		w.write("notes.txt", "func (p *EdIt) Process(e processor.Event) error { ... }\n")
	}},
	{"add an option", func(w *world) {
		w.opts = append(w.opts[:len(w.opts):len(w.opts)], opt(fmt.Sprintf("o%d", len(w.opts)), &types[0], "optional", 1, "x"))
	}},
	{"remove the options", func(w *world) { w.opts = nil }},
}

// histories runs every sequence of depth edits that starts with prefix, each
// followed by a run of the generator; all resulting packages are compiled together.
func histories(t *mc.T, prefix []int, depth int) {
	var seqs [][]int
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) == depth {
			seqs = append(seqs, append([]int(nil), seq...))
			return
		}
		for i := range edits {
			rec(append(seq, i))
		}
	}
	rec(prefix)
	name := func(seq []int) string {
		var s []string
		for _, i := range seq {
			s = append(s, edits[i].name)
		}
		return strings.Join(append(s, "generate"), "; ")
	}
	const group = 64
	for len(seqs) > 0 {
		n := group
		if n > len(seqs) {
			n = len(seqs)
		}
		dir := module()
		var bins []string
		for k, seq := range seqs[:n] {
			seq := seq
			t.At(func() string { return name(seq) })
			w := &world{src: filepath.Join(dir, fmt.Sprintf("h%d", k)), opts: []option{opt("a", &types[1], "optional", 1, "x")}}
			must(os.MkdirAll(w.src, 0o755))
			gen := func() {
				must(os.WriteFile(filepath.Join(w.src, "processors.yml"), schema([]processor{{procName, "E.", w.opts}}), 0o644))
				if r := runTool(w.src, "gen", "-p", "processors.yml"); r.code != 0 {
					t.Fail("the generator fails: %s", mc.Short(r.out))
				}
				t.Trans(1)
			}
			for _, i := range seq {
				if edits[i].do == nil {
					gen()
				} else {
					edits[i].do(w)
				}
			}
			gen()
			if w.hand != "" {
				data, err := os.ReadFile(w.path(w.handFile))
				if err != nil || string(data) != w.hand {
					t.Fail("the hand-written file changed: %v", err)
				}
			}
			// One probe per package, as all register the same name.
			pd := filepath.Join(dir, fmt.Sprintf("probe%d", k))
			must(os.MkdirAll(pd, 0o755))
			main := strings.Replace(miniProbe, "PKG", fmt.Sprintf("gen/h%d/%s", k, procName), 1)
			must(os.WriteFile(filepath.Join(pd, "main.go"), []byte(main), 0o644))
			bins = append(bins, fmt.Sprintf("./probe%d", k))
			t.State(name(seq))
		}
		// One combined program: each package is used through its own import.
		var imp, use strings.Builder
		for k := range seqs[:n] {
			fmt.Fprintf(&imp, "\tp%d %q\n", k, fmt.Sprintf("gen/h%d/%s", k, procName))
			fmt.Fprintf(&use, "\tshow(%d, func() (interface{}, error) { return p%d.New(def(reflect.TypeOf(p%d.Config{})).(p%d.Config)) })\n", k, k, k, k)
		}
		for _, b := range bins {
			os.RemoveAll(filepath.Join(dir, b))
		}
		must(os.MkdirAll(filepath.Join(dir, "all"), 0o755))
		src := strings.NewReplacer("IMPORTS", imp.String(), "USES", use.String()).Replace(combined)
		// The registry refuses the same name twice, so the names are made unique.
		for k := range seqs[:n] {
			p := filepath.Join(dir, fmt.Sprintf("h%d", k), procName, procName+".go")
			data, err := os.ReadFile(p)
			if err != nil {
				t.Fail("after %s there is no generated file: %v", name(seqs[k]), err)
			}
			changed := bytes.Replace(data, []byte(`"`+procName+`"`), []byte(fmt.Sprintf("\"%s%d\"", procName, k)), 1)
			must(os.WriteFile(p, changed, 0o644))
		}
		must(os.WriteFile(filepath.Join(dir, "all/main.go"), []byte(src), 0o644))
		t.At(func() string { return fmt.Sprintf("histories h0.. = %s ...", name(seqs[0])) })
		cmd := exec.Command("go", "build", "-buildvcs=false", "-p", "2", "-o", filepath.Join(dir, "all/all"), "./all")
		cmd.Dir = dir
		if out, err := cmd.CombinedOutput(); err != nil {
			// Say which history it is.
			s := string(out)
			for k := range seqs[:n] {
				if strings.Contains(s, fmt.Sprintf("h%d/", k)) {
					t.Atf(name(seqs[k]))
					break
				}
			}
			if len(s) > 2000 {
				s = s[:2000]
			}
			t.Fail("the package does not compile: %s", s)
		}
		cmd = exec.Command(filepath.Join(dir, "all/all"))
		out, err := cmd.CombinedOutput()
		if err != nil {
			t.Fail("a program with the generated packages fails: %v %s", err, mc.Short(string(out)))
		}
		lines := strings.Split(strings.TrimSpace(string(out)), "\n")
		for k, seq := range seqs[:n] {
			seq := seq
			t.At(func() string { return name(seq) })
			w := &world{opts: []option{{Name: "a"}}, src: filepath.Join(dir, "none")}
			for _, i := range seq {
				if edits[i].do != nil {
					edits[i].do(w)
				}
			}
			want := fmt.Sprintf("%d options %d result {}", k, len(w.opts))
			if w.hand != "" {
				want = fmt.Sprintf("%d options %d result {\"hand\":\"written\"}", k, len(w.opts))
			}
			if k >= len(lines) || lines[k] != want {
				t.Fail("the package behaves as %q, want %q", append(lines, "")[k], want)
			}
			t.Eval(1)
			t.Trace(1)
			t.Outcome(want[strings.Index(want, " "):])
			t.Sample(func() string { return name(seq) })
		}
		os.RemoveAll(dir)
		seqs = seqs[n:]
	}
}

const miniProbe = "package main\n\nimport _ \"PKG\"\n\nfunc main() {}\n"

const combined = `package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
IMPORTS)

type ev struct{ *event.Event }

func (ev) Cancel() {}
func (ev) Drop()   {}

func def(t reflect.Type) interface{} {
	c := reflect.New(t)
	if d, ok := c.Interface().(interface{ InitDefaults() }); ok {
		d.InitDefaults()
	}
	return c.Elem().Interface()
}

func show(k int, f func() (interface{}, error)) {
	p, err := f()
	if err != nil {
		fmt.Println(k, err)
		return
	}
	e := event.New()
	if err := p.(processor.Processor).Process(ev{e}); err != nil {
		fmt.Println(k, err)
		return
	}
	data, _ := json.Marshal(e)
	cfg := reflect.ValueOf(p).MethodByName("Config").Call(nil)[0]
	fmt.Println(k, "options", cfg.NumField(), "result", string(data))
}

func main() {
USES}
`

// failures: a generator that cannot complete reports it.
func failures(t *mc.T) {
	good := schema([]processor{{"x", "X.", []option{opt("o", &types[0], "required", -1, "a")}}})
	bad := func(what string, r result, wrote string) {
		t.Atf(what)
		if r.code == 0 {
			t.Fail("reported success")
		}
		if strings.TrimSpace(r.out) == "" {
			t.Fail("failed without a message")
		}
		if wrote != "" {
			if _, err := os.Stat(wrote); err == nil {
				t.Fail("wrote %s", filepath.Base(wrote))
			}
		}
		t.Eval(1)
		t.Outcome(what)
	}
	texts := map[string]string{
		"empty": "", "syntax": "processors: [\n", "unknown key": "processor:\n- x: {description: a}\n", "unknown option key": "processors:\n- x:\n    description: a\n    configuration:\n    - {name: o, kind: string}\n",
		"list": "- a\n", "scalar": "x\n", "configuration not a list": "processors:\n- x: {description: a, configuration: 7}\n", "bad mark": "processors:\n- x: {description: a, configuration: [{name: o, type: string, required: maybe}]}\n",
		"unknown anchor": "processors:\n- x: {description: a, configuration: [{<<: *nosuch}]}\n",
	}
	for what, text := range texts {
		dir := module()
		yml := filepath.Join(dir, "processors.yml")
		must(os.WriteFile(yml, []byte(text), 0o644))
		bad("generate: "+what, runTool(dir, "gen", "-p", yml), filepath.Join(dir, "x"))
		bad("docs: "+what, runTool(dir, "gendocs", "-p", yml, "-o", filepath.Join(dir, "out.md")), filepath.Join(dir, "out.md"))
		os.RemoveAll(dir)
	}
	// Names and types that make no Go source.
	for what, text := range map[string]string{
		"package name":  "processors:\n- 'a-b':\n    description: x\n",
		"keyword":       "processors:\n- func:\n    description: x\n",
		"option name":   "processors:\n- x:\n    description: x\n    configuration:\n    - {name: 'a b', type: string}\n",
		"option number": "processors:\n- x:\n    description: x\n    configuration:\n    - {name: '9a', type: string}\n",
		"type":          "processors:\n- x:\n    description: x\n    configuration:\n    - {name: a, type: '[string'}\n",
	} {
		dir := module()
		yml := filepath.Join(dir, "processors.yml")
		must(os.WriteFile(yml, []byte(text), 0o644))
		bad("generate: "+what, runTool(dir, "gen", "-p", yml), "")
		os.RemoveAll(dir)
	}
	dir := module()
	defer os.RemoveAll(dir)
	bad("generate: no schema", runTool(dir, "gen", "-p", filepath.Join(dir, "nosuch.yml")), "")
	bad("generate: no default schema", runTool(dir, "gen"), "")
	bad("generate: schema is a directory", runTool(dir, "gen", "-p", dir), "")
	bad("docs: no schema", runTool(dir, "gendocs", "-p", filepath.Join(dir, "nosuch.yml"), "-o", filepath.Join(dir, "o.md")), filepath.Join(dir, "o.md"))
	yml := filepath.Join(dir, "processors.yml")
	must(os.WriteFile(yml, good, 0o644))
	bad("docs: output is a directory", runTool(dir, "gendocs", "-p", yml, "-o", dir), "")
	bad("docs: output directory does not exist", runTool(dir, "gendocs", "-p", yml, "-o", filepath.Join(dir, "no/such/o.md")), "")
	bad("docs: disk full", runTool(dir, "gendocs", "-p", yml, "-o", "/dev/full"), "")
	must(os.WriteFile(filepath.Join(dir, "x"), []byte("a file"), 0o644))
	bad("generate: package directory is a file", runTool(dir, "gen", "-p", yml), "")
	must(os.Remove(filepath.Join(dir, "x")))
	must(os.MkdirAll(filepath.Join(dir, "x/x.go"), 0o755))
	bad("generate: package file is a directory", runTool(dir, "gen", "-p", yml), "")
	must(os.Remove(filepath.Join(dir, "x/x.go")))
	must(os.Symlink("/dev/full", filepath.Join(dir, "x/x.go")))
	bad("generate: disk full", runTool(dir, "gen", "-p", yml), "")
	bad("generate: unknown flag", runTool(dir, "gen", "-nosuch"), "")
	bad("docs: unknown flag", runTool(dir, "gendocs", "-nosuch"), "")
	for tool, pkg := range map[string]string{"gen": "./pkg/processor/generate", "gendocs": "./docs/generate"} {
		brokenTemplates(t, tool, pkg, good)
	}
}

// brokenTemplates runs a generator with each of its templates failing.
func brokenTemplates(t *mc.T, tool, pkg string, good []byte) {
	repo := os.Getenv("VERIF_REPO")
	goCmd := func(args ...string) (string, error) {
		cmd := exec.Command("go", args...)
		cmd.Dir = repo
		out, err := cmd.CombinedOutput()
		return string(out), err
	}
	list, err := goCmd("list", "-modfile="+filepath.Join(scratch, "repo.mod"), "-f", "{{.Dir}}{{range .EmbedFiles}}\n{{.}}{{end}}", pkg)
	if err != nil {
		t.Outcome("templates of " + tool + " unknown: " + list)
		return
	}
	names := strings.Split(strings.TrimSpace(list), "\n")
	run := func(tool string) (result, map[string]string) {
		dir := module()
		defer os.RemoveAll(dir)
		yml := filepath.Join(dir, "processors.yml")
		must(os.WriteFile(yml, good, 0o644))
		args := []string{"-p", yml}
		if strings.HasPrefix(tool, "gendocs") {
			args = append(args, "-o", filepath.Join(dir, "out.md"))
		}
		r := runTool(dir, tool, args...)
		return r, files(dir)
	}
	_, whole := run(tool)
	for i, name := range names[1:] {
		path := filepath.Join(names[0], name)
		text, err := os.ReadFile(path)
		must(err)
		if !bytes.Contains(text, []byte("{{")) {
			continue
		}
		t.Atf(fmt.Sprintf("%s: template %s fails", tool, name))
		broken := filepath.Join(scratch, fmt.Sprintf("%s-broken%d", tool, i))
		must(os.WriteFile(broken+".txt", append(text, "{{ index 1 2 }}\n"...), 0o644))
		overlay, err := json.Marshal(map[string]interface{}{"Replace": map[string]string{path: broken + ".txt"}})
		must(err)
		must(os.WriteFile(broken+".json", overlay, 0o644))
		if out, err := goCmd("build", "-buildvcs=false", "-overlay", broken+".json", "-modfile="+filepath.Join(scratch, "repo.mod"), "-o", broken, pkg); err != nil {
			t.Outcome("templates of " + tool + " cannot be replaced: " + out)
			continue
		}
		r, wrote := run(filepath.Base(broken))
		switch {
		case r.code == 0 && reflect.DeepEqual(wrote, whole):
			t.Outcome(tool + " does not use " + name)
		case r.code == 0:
			t.Fail("reported success")
		case strings.TrimSpace(r.out) == "":
			t.Fail("failed without a message")
		default:
			t.Outcome(tool + " " + name)
		}
		t.Eval(1)
	}
}

func main() {
	mc.Main(&mc.Check{
		ID: "C23", Level: "exploration",
		Rule:        "a case is a processor schema (or a history of edits of a package directory); the real generators run on it, the packages are compiled and probed through the registry, the documentation is parsed; outcomes differ in options or observed configuration",
		Units:       units,
		Setup:       func() error { verif = mc.Verif(); return nil },
		HangSeconds: 240,
		Bounds: func(tier string) map[string]interface{} {
			b := map[string]interface{}{"types": len(types), "marks": 3, "defaults": "all listed per type", "descriptions": len(descs), "pairs of types": "a third", "edit histories": 3, "edits": len(edits)}
			if tier == "thorough" {
				b["pairs of types"] = "all, with all marks"
				b["triples of types"] = "a quarter"
				b["edit histories"] = 4
			}
			return b
		},
		Assumptions: []string{
			"well-formed schemas name processors and options in lower-case words joined by single underscores (options also by dots and with a leading @) and do not spell names of the generated code (config, new, main, init_defaults), have descriptions that are not Go build directives, and give defaults only to string, bool and numeric options",
			"an empty Default cell stands for the zero value",
		},
	})
}
