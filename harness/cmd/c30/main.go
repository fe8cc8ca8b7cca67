// C30: a pipeline does to an event what its definition says.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"

	"verif/mc"
	"verif/model"
	"verif/pr"
)

var (
	i, s, a, n = model.I, model.S, model.A, model.N
	kv         = model.KV
)

// menu of processors; all work on a few fields that lie in one another.
var menu = []pr.P{
	{Typ: "set", Target: "t", Val: i(-7)},
	{Typ: "set", Target: "t", Val: s("Qq")},
	{Typ: "set", Target: "a", Val: a(s("x"), s("Y"))},
	{Typ: "set", Target: "a.b", Val: kv("k", a(s("V"), kv("m", i(3))))},
	{Typ: "set", Field: "a", Target: "t"},
	{Typ: "set", Field: "t", Target: "a.b", IgnMiss: true},
	{Typ: "set", Field: "a.b", Target: "b"},
	{Typ: "set", Field: "b", Target: "b.c"},
	{Typ: "append", Field: "a", Str: "X"},
	{Typ: "append", Field: "t", Str: "x", Dup: true},
	{Typ: "append", Field: "a.b.k", Str: "V"},
	{Typ: "append", Field: "b.c", Str: "Xy"},
	{Typ: "lowercase", Field: "a"},
	{Typ: "lowercase", Field: "t", Target: "a.b"},
	{Typ: "uppercase", Field: "a.b", Target: "t", IgnMiss: true},
	{Typ: "uppercase", Field: "b", IgnMiss: true},
	{Typ: "remove", Fields: []string{"a"}},
	{Typ: "remove", Fields: []string{"a.b", "t"}},
	{Typ: "remove", Fields: []string{"t", "zz", "b"}, IgnMiss: true},
	{Typ: "vcond", Field: "t", Str: "fail"},
	{Typ: "vcond", Field: "b.c", Str: "drop"},
	{Typ: "vcond", Field: "a.b", Str: "cancel"},
}

// more of them, for shorter lists.
var more = []pr.P{
	{Typ: "set", Target: `a\.b`, Val: s("dotted")},
	{Typ: "set", Field: `a\.b`, Target: "a.b"},
	{Typ: "set", Field: ".", Target: "t"},
	{Typ: "set", Target: "t", Val: model.F(1.5)},
	{Typ: "set", Target: "t", Val: model.B(false), IgnErr: true},
	{Typ: "append", Field: `a\.b`, Str: "x", IgnMiss: true},
	{Typ: "append", Field: "t", Str: "Qq"},
	{Typ: "lowercase", Field: `a\.b`, Target: "a"},
	{Typ: "uppercase", Field: "t", Target: "t.u"},
	{Typ: "remove", Fields: []string{"b", "zz"}},
	{Typ: "remove", Fields: []string{`a\.b`, "a.b"}, OnFailure: []pr.P{{Typ: "set", Target: "t", Val: s("gone")}}},
	{Typ: "vcond", Field: "a", Str: "missing"},
	{Typ: "vcond", Field: "a", Str: "missing", IgnMiss: true},
	{Typ: "vcond", Field: "a", Str: "fail", IgnErr: true},
	// Options that are easily taken for others of the menu.
	{Typ: "set", Target: "t", Val: s("-7")},
	{Typ: "set", Target: "a", Val: a(s("x Y"))},
	{Typ: "set", Target: "t", Val: s("false")},
	{Typ: "remove", Fields: []string{"a.b t"}, IgnMiss: true},
}

var handlers = [][]pr.P{
	nil,
	{{Typ: "set", Target: "err", Val: s("E")}, {Typ: "append", Field: "a", Str: "H"}},
	{{Typ: "vcond", Field: "t", Str: "fail"}, {Typ: "set", Field: "a", Target: "err"}},
}

// events, as JSON texts.
var events = []string{
	`{}`,
	`{"a":"Xy","t":"Tt"}`,
	`{"a":{"b":"Xy","c":null},"b":"Bb"}`,
	`{"a":["Xy","z"],"t":["x",{"y":"Z"}]}`,
	`{"a":null,"b":{"c":"Qq"},"t":"x"}`,
	`{"a.b":"Xy","a":{"b":{"k":["V"]}},"t":null}`,
	`{"b":[{"a":"Xy"}],"a":-7,"t":{"a":{"b":1.5}}}`,
}

var trees = func() (out []*model.V) {
	for _, text := range events {
		var e event.Event
		if err := json.Unmarshal([]byte(text), &e); err != nil {
			panic(err)
		}
		out = append(out, model.Snapshot(&e))
	}
	return
}()

// run compares one definition on every event with what it says.
func run(t *mc.T, d pr.Def, form string) {
	text := render(d, form)
	t.At(func() string { return text })
	var c *pipeline.Config
	var err error
	if form == "json" {
		err = json.Unmarshal([]byte(text), &c)
	} else {
		err = yaml.Unmarshal([]byte(text), &c)
	}
	if err != nil {
		t.Fail("the definition is refused: %v", err)
	}
	p, err := pipeline.New(c)
	if err != nil {
		t.Fail("New: %v", err)
	}
	t.At(func() string { return "no event (nil) through " + text })
	if out, _ := p.Process(nil); out != nil {
		t.Fail("there is no event, but the caller gets %s", model.Snapshot(out).Canon())
	}
	for k, ev := range events {
		t.At(func() string { return "event " + ev + " through " + text })
		t.Eval(1)
		t.Trans(1)
		e := event.New()
		if err := json.Unmarshal([]byte(ev), e); err != nil {
			t.Fail("the event is refused: %v", err)
		}
		out, err := p.Process(e)
		got := pr.Out{}
		switch {
		case err != nil:
			got.Failed = true
			if out != nil {
				t.Fail("both an event and an error: %v", err)
			}
		case out == nil:
			got.Dropped = true
		default:
			enc, err := json.Marshal(out)
			if err != nil {
				t.Fail("encoding the result: %v", err)
			}
			var back event.Event
			if err := json.Unmarshal(enc, &back); err != nil {
				t.Fail("decoding the result: %v", err)
			}
			got.Root = pr.Signed(model.Snapshot(&back))
			if !model.Equal(got.Root, pr.Signed(model.Snapshot(out))) {
				t.Fail("the result %s is encoded as %s", model.Snapshot(out).Canon(), enc)
			}
		}
		outs := d.Refs(trees[k])
		ok := false
		for _, w := range outs {
			if w.Root != nil {
				w.Root = pr.Signed(w.Root)
			}
			if w.Failed == got.Failed && w.Dropped == got.Dropped && (w.Root == nil) == (got.Root == nil) && (w.Root == nil || model.Equal(w.Root, got.Root)) {
				ok = true
				break
			}
		}
		if !ok {
			t.Fail("the caller gets: %s (error %v); the definition says: %s", got.Canon(), err, outs[0].Canon())
		}
		t.Trace(1)
		if got.Root != nil {
			t.State(got.Root.Canon())
		}
		t.OutcomeN(mc.Hash(text + ev))
	}
}

// render writes the definition down.
func render(d pr.Def, form string) string {
	var b strings.Builder
	if form == "json" {
		b.WriteString(`{"id":"p","processors":`)
		jsonList(&b, d.Procs)
		if len(d.OnFailure) > 0 {
			b.WriteString(`,"on_failure":`)
			jsonList(&b, d.OnFailure)
		}
		b.WriteString("}")
		return b.String()
	}
	b.WriteString("id: p\n")
	if len(d.Procs) > 0 {
		b.WriteString("processors:\n")
		yamlList(&b, d.Procs, "")
	}
	if len(d.OnFailure) > 0 {
		b.WriteString("on_failure:\n")
		yamlList(&b, d.OnFailure, "")
	}
	return b.String()
}

func names(m map[string]interface{}) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func jsonList(b *strings.Builder, ps []pr.P) {
	b.WriteString("[")
	for k, p := range ps {
		if k > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(b, `{%q:{`, p.Typ)
		opts := p.Conf()[p.Typ].Config
		sep := ""
		for _, o := range names(opts) {
			fmt.Fprintf(b, "%s%q:%s", sep, o, flow(opts[o]))
			sep = ","
		}
		if len(p.OnFailure) > 0 {
			fmt.Fprintf(b, `%s"on_failure":`, sep)
			jsonList(b, p.OnFailure)
		}
		b.WriteString("}}")
	}
	b.WriteString("]")
}

func yamlList(b *strings.Builder, ps []pr.P, indent string) {
	for _, p := range ps {
		fmt.Fprintf(b, "%s- %s:\n", indent, p.Typ)
		opts := p.Conf()[p.Typ].Config
		for _, o := range names(opts) {
			fmt.Fprintf(b, "%s    %s: %s\n", indent, o, flow(opts[o]))
		}
		if len(p.OnFailure) > 0 {
			fmt.Fprintf(b, "%s    on_failure:\n", indent)
			yamlList(b, p.OnFailure, indent+"    ")
		}
	}
}

// flow is both JSON and YAML.
func flow(v interface{}) string {
	switch v := v.(type) {
	case string:
		return strconv.Quote(v)
	case []interface{}:
		var out []string
		for _, x := range v {
			out = append(out, flow(x))
		}
		return "[" + strings.Join(out, ", ") + "]"
	case map[string]interface{}:
		var out []string
		for _, k := range names(v) {
			out = append(out, strconv.Quote(k)+": "+flow(v[k]))
		}
		return "{" + strings.Join(out, ", ") + "}"
	}
	return fmt.Sprint(v)
}

// documented tries the definitions that the documentation shows.
func documented(t *mc.T) {
	file := filepath.Join(os.Getenv("VERIF_REPO"), "docs", "README.md")
	b, err := os.ReadFile(file)
	if err != nil {
		return // there is none
	}
	for _, part := range strings.Split("\n"+string(b), "\n```yaml\n")[1:] {
		text := strings.SplitN(part, "\n```", 2)[0]
		if !strings.Contains(text, "processors:") {
			continue
		}
		t.At(func() string { return "the definition in docs/README.md: " + text })
		t.Eval(1)
		var c *pipeline.Config
		if err := yaml.Unmarshal([]byte(text), &c); err != nil {
			t.Fail("it is refused: %v", err)
		}
		p, err := pipeline.New(c)
		if err != nil {
			t.Fail("it is refused: %v", err)
		}
		for _, ev := range events {
			var e event.Event
			if err := json.Unmarshal([]byte(ev), &e); err != nil {
				t.Fail("%v", err)
			}
			t.Trans(1)
			out, err := p.Process(&e)
			if ev != "{}" {
				continue
			}
			// What the example is about happens.
			if err != nil || out == nil {
				t.Fail("an empty event yields %v, error %v", out, err)
			}
			var doc struct {
				Processors []map[string]map[string]interface{}
			}
			if err := yaml.Unmarshal([]byte(text), &doc); err != nil {
				t.Fail("%v", err)
			}
			for _, x := range doc.Processors {
				set := x["set"]
				field, ok := set["target_field"].(string)
				if !ok {
					field, _ = set["field"].(string)
				}
				if want, ok := set["value"].(string); ok {
					if v := out.Get(field); v == nil || v.String != want {
						t.Fail("an empty event becomes %s, without %q at %s", model.Snapshot(out).Canon(), want, field)
					}
				}
			}
		}
	}
}

func list(ps ...pr.P) []pr.P { return append([]pr.P{}, ps...) }

func with(p pr.P, h ...pr.P) pr.P {
	p.OnFailure = h
	return p
}

func main() {
	all := append(list(menu...), more...)
	mc.Main(&mc.Check{
		ID: "C30", Level: "model_checking",
		Rule: "every list of processors to a length from a menu of configured built-in processors over a few nested fields (and test processors that fail, drop or cancel if a field exists), with and without handlers at either level, written as YAML or JSON text, run on every event of a set given as JSON; the caller's result, through JSON, must be one that a reference interpreter of the documented effects and control flow allows; distinct by (definition, event)",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"menu": len(menu), "menu_short_lists": len(all), "list_length": 4, "list_length_all": 3, "list_length_14_of_menu": pr.Pick(tier, 4, 5), "handler_levels": 2, "events": len(events)}
		},
		Assumptions: []string{
			"where the documentation leaves the result open, or a recorded finding departs from it, each reading is accepted: lowercase and uppercase of arrays, append with ignore_missing or of a value equal to the scalar, how much remove removes before it fails",
			"configured integers may come out signed or unsigned; community_id is not part of the menu (C26)"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			// One and two processors, both forms, all handlers.
			for k := range all {
				p := all[k]
				if !yield("short "+p.String(), func(t *mc.T) {
					for _, form := range []string{"yaml", "json"} {
						for _, h := range handlers {
							run(t, pr.Def{Procs: list(p), OnFailure: h}, form)
							for _, q := range all {
								run(t, pr.Def{Procs: list(p, q), OnFailure: h}, form)
								run(t, pr.Def{Procs: list(with(p, q)), OnFailure: h}, form)
							}
						}
						for _, h := range all {
							run(t, pr.Def{Procs: list(p), OnFailure: list(h)}, form)
						}
					}
					t.Sample(func() string { return render(pr.Def{Procs: list(p)}, "yaml") })
				}) {
					return
				}
			}
			// Handlers of handlers, and what comes after them.
			for k := range all {
				for l := range all {
					p, q := all[k], all[l]
					if !yield("handlers "+p.String()+q.String(), func(t *mc.T) {
						for m, r := range all {
							form := []string{"yaml", "json"}[m%2]
							run(t, pr.Def{Procs: list(with(p, q), r)}, form)
							run(t, pr.Def{Procs: list(p, with(q, r))}, form)
							run(t, pr.Def{Procs: list(with(p, q, r))}, form)
							run(t, pr.Def{Procs: list(with(p, with(q, r)))}, form)
							run(t, pr.Def{Procs: list(p), OnFailure: list(q, r)}, form)
							run(t, pr.Def{Procs: list(p), OnFailure: list(with(q, r))}, form)
							run(t, pr.Def{Procs: list(p, q), OnFailure: list(r)}, form)
							run(t, pr.Def{Procs: list(p, q, r), OnFailure: handlers[m%len(handlers)]}, form)
						}
					}) {
						return
					}
				}
			}
			if !yield("documented definitions", documented) {
				return
			}
			// Long lists.
			var some []pr.P
			for _, k := range []int{0, 2, 4, 5, 6, 8, 10, 12, 13, 16, 17, 19, 20, 21} {
				some = append(some, menu[k])
			}
			var rec func(t *mc.T, from, ps []pr.P, left int)
			rec = func(t *mc.T, from, ps []pr.P, left int) {
				if left == 0 {
					run(t, pr.Def{Procs: ps}, "yaml")
					return
				}
				for _, p := range from {
					rec(t, from, append(ps[:len(ps):len(ps)], p), left-1)
				}
			}
			for n := 4; n <= pr.Pick(tier, 4, 5); n++ {
				from := menu
				if n == 5 {
					from = some
				}
				for k := range from {
					for l := range from {
						p, q, n, from := from[k], from[l], n, from
						if !yield(fmt.Sprintf("lists of %d: %s %s", n, p, q), func(t *mc.T) { rec(t, from, list(p, q), n-2) }) {
							return
						}
					}
				}
			}
		},
	})
}
