// C17: lowercase and uppercase convert exactly the named field.
package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/andrewkroh/go-sawmill/pkg/event"

	"verif/mc"
	"verif/model"
	"verif/pr"
)

var (
	i, s, a, n = model.I, model.S, model.A, model.N
	kv         = model.KV
)

type opt struct {
	typ, field, target string
	ignoreMissing      bool
}

func (o opt) String() string {
	return fmt.Sprintf("%s field=%q target_field=%q ignore_missing=%v", o.typ, o.field, o.target, o.ignoreMissing)
}

func (o opt) proc(t *mc.T) *pr.Proc {
	m := pr.Opts{"field": o.field}
	if o.target != "" {
		m["target_field"] = o.target
	}
	if o.ignoreMissing {
		m["ignore_missing"] = true
	}
	return pr.New(t, o.typ, m)
}

// conv is the reference: character by character. Bytes that are not UTF-8 read
// as U+FFFD.
func conv(typ, in string) string {
	var b strings.Builder
	for _, r := range in {
		if typ == "lowercase" {
			b.WriteRune(unicode.ToLower(r))
		} else {
			b.WriteRune(unicode.ToUpper(r))
		}
	}
	return b.String()
}

func sameText(got, want string) bool { return got == want || string([]rune(got)) == want }

func strArray(v *model.V) bool {
	for _, e := range v.A {
		if e.K != model.String {
			return false
		}
	}
	return v.K == model.Array && len(v.A) > 0
}

func run(t *mc.T, p *pr.Proc, o opt, tree *model.V) {
	turn(t, p, o, tree, func() *event.Event { return model.Build(tree) })
	if model.BuildShared(tree) != nil {
		turn(t, p, o, tree, func() *event.Event { return model.BuildShared(tree) })
	}
}

// turn does the work; it returns the event after the processor.
func turn(t *mc.T, p *pr.Proc, o opt, tree *model.V, mk func() *event.Event) (out *event.Event) {
	t.Eval(1)
	t.At(func() string { return o.String() + " on " + pr.Clip(tree.Canon()) })
	m := &model.Tree{Root: tree.Clone()}
	src := m.Get(model.Path(o.field))
	target := o.target
	if target == "" {
		target = o.field
	}
	r := p.Run(t, mk)
	out = r.After
	if len(model.Path(o.field)) == 0 && len(tree.O) == 0 {
		pr.Same(t, r.After, tree, "the root of an empty event as source")
		return // missing or not a string
	}
	fail := func(what string) {
		if r.Err == nil {
			t.Fail("%s, but it succeeded; event is %s", what, pr.Clip(model.Snapshot(r.After).Canon()))
		}
		pr.Same(t, r.After, tree, "after error "+r.Err.Error())
		t.Outcome(o.typ + what + tree.Canon())
	}
	switch {
	case len(model.Path(o.field)) > 0 && (src == nil || src.K == model.Null):
		if o.ignoreMissing {
			if r.Err != nil {
				t.Fail("failed: %v", r.Err)
			}
			pr.Same(t, r.After, tree, "missing field ignored")
			return
		}
		fail("the field is missing")
		key, miss := r.Missing()
		if !miss || key != o.field {
			t.Fail("error %v does not report %q missing", r.Err, o.field)
		}
	case src == nil || src.K == model.Object || src.K != model.String && src.K != model.Array:
		fail("the field is not a string")
		if _, miss := r.Missing(); miss {
			t.Fail("a present field is reported missing: %v", r.Err)
		}
	case src.K == model.Array:
		conved := a()
		for _, e := range src.A {
			if e.K == model.String {
				conved.A = append(conved.A, s(conv(o.typ, e.S)))
			}
		}
		if strArray(src) {
			_, err := m.Put(model.Path(target), conved, true)
			if err == model.OK && r.Err == nil && model.MatchEvent(m.Root, r.After) {
				return // as documented
			}
			if err != model.OK {
				fail("the target is unusable")
				return
			}
			// Known finding: refused, although the documentation says that
			// every member is converted.
			if r.Err != nil && model.MatchEvent(tree, r.After) && t.KnownFinding("array-of-strings") {
				t.Count("known_finding_array_of_strings", 1)
				if _, miss := r.Missing(); miss {
					t.Fail("a present field is reported missing: %v", r.Err)
				}
				return
			}
			t.Fail("error %v; event is %s, want every member converted: %s", r.Err, model.Snapshot(r.After).Canon(), m.Root.Canon())
		}
		if len(src.A) == 0 {
			if r.Err == nil {
				if _, err := m.Put(model.Path(target), a(), true); err == model.OK && model.MatchEvent(m.Root, r.After) {
					return
				}
			}
			fail("there is no string")
			return
		}
		fail("the array has members that are not strings")
	default:
		text := conv(o.typ, src.S)
		if _, err := m.Put(model.Path(target), s(text), true); err != model.OK {
			fail("the target is unusable")
			if _, miss := r.Missing(); miss {
				t.Fail("an unusable target is reported as a missing key: %v", r.Err)
			}
			return
		}
		if r.Err != nil {
			t.Fail("failed: %v", r.Err)
		}
		if !utf8.ValidString(src.S) {
			got := r.After.Get(target)
			if got == nil || got.Type != event.StringType || !sameText(got.String, text) {
				t.Fail("target is %s, want %q", model.From(got).Canon(), text)
			}
			r.After.Put(target, event.String(text))
		}
		if !model.MatchEvent(m.Root, r.After) {
			t.Fail("event is %s, want %s", pr.Clip(model.Snapshot(r.After).Canon()), pr.Clip(m.Root.Canon()))
		}
		t.Outcome(o.typ + tree.Canon() + "|" + m.Root.Canon())
	}
	return out
}

var tricky = []string{"a", "Z", "0", " ", ".", `\`, "\x00", "ß", "ẞ", "İ", "ı", "Σ", "ς", "σ", "ǅ", "ǆ", "K", "k", "ﬁ", "é", "É", "Ⱥ", "ⱥ", "𐐀", "𐐨", "\U0010FFFF", "\xff", "\xed\xa0\x80", "̈", "Ω", "Ω", "ა", "Ა", "ꭰ", "Ꭰ", "Ნ"}

func main() {
	mc.Main(&mc.Check{
		ID: "C17", Level: "exploration",
		Rule: "both processors on: every code point and every byte alone, between ASCII letters and in a longer text; every sequence to a length over hard characters; lengths around every power of two; every event tree to a size x every field and target path x ignore_missing; every unusual name as source and target next to those it might be confused with; distinct by (event before, event after or error)",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"code_points": "all", "sequence_length": pr.Pick(tier, 2, 3), "characters": len(tricky), "text_length": pr.Pick(tier, 1<<14, 1<<20), "event_nodes": pr.Pick(tier, 4, 5)}
		},
		Assumptions: []string{"case is mapped character by character (the simple Unicode mapping)", "bytes that are not UTF-8 may be kept or replaced by U+FFFD", "an empty array may be refused or converted to an empty array"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			for _, typ := range []string{"lowercase", "uppercase"} {
				if !units(tier, typ, yield) {
					return
				}
			}
		},
	})
}

func units(tier, typ string, yield func(string, func(*mc.T)) bool) bool {
	one := func(t *mc.T, p, q *pr.Proc, text string) {
		run(t, p, opt{typ: typ, field: "f"}, kv("f", s(text), "o", s("Keep Me")))
		run(t, q, opt{typ: typ, field: "f", target: "g.h"}, kv("f", s(text)))
	}
	procs := func(t *mc.T) (p, q *pr.Proc) {
		return opt{typ: typ, field: "f"}.proc(t), opt{typ: typ, field: "f", target: "g.h"}.proc(t)
	}
	const block = 0x1000
	for lo := 0; lo <= unicode.MaxRune; lo += block {
		lo := lo
		if !yield(fmt.Sprintf("%s U+%X..", typ, lo), func(t *mc.T) {
			p, q := procs(t)
			var all strings.Builder
			for r := lo; r < lo+block && r <= unicode.MaxRune; r++ {
				one(t, p, q, string(rune(r)))
				one(t, p, q, "aZ"+string(rune(r))+"zA")
				all.WriteRune(rune(r))
			}
			one(t, p, q, all.String())
			t.Sample(func() string { return fmt.Sprintf("%s of U+%04X alone and inside text", typ, lo) })
		}) {
			return false
		}
	}
	if !yield(typ+" bytes", func(t *mc.T) {
		p, q := procs(t)
		one(t, p, q, "")
		for b := 0; b < 256; b++ {
			one(t, p, q, string([]byte{byte(b)}))
			one(t, p, q, string([]byte{'A', byte(b), 'z'}))
			for c := 0x70; c < 256; c += 3 {
				one(t, p, q, string([]byte{byte(b), byte(c)}))
			}
		}
	}) {
		return false
	}
	for x := range tricky {
		x := x
		if !yield(fmt.Sprintf("%s sequences %q", typ, tricky[x]), func(t *mc.T) {
			p, q := procs(t)
			var rec func(text string, left int)
			rec = func(text string, left int) {
				one(t, p, q, text)
				if left > 0 {
					for _, c := range tricky {
						rec(text+c, left-1)
					}
				}
			}
			rec(tricky[x], pr.Pick(tier, 2, 3)-1)
		}) {
			return false
		}
	}
	var lens []int
	for l := 1; l <= pr.Pick(tier, 1<<14, 1<<20); l *= 2 {
		lens = append(lens, l)
	}
	for _, l := range model.WithSourceSizes(lens, 1<<20) {
		l := l
		if !yield(fmt.Sprintf("%s length %d", typ, l), func(t *mc.T) {
			p, q := procs(t)
			for d := -1; d <= 1; d++ {
				for _, unit := range []string{"aB", "é", "Z", "İx"} {
					text := strings.Repeat(unit, (l+d)/len(unit)+1)
					one(t, p, q, text[:l+d])
					one(t, p, q, "Q"+text)
				}
			}
		}) {
			return false
		}
	}
	// Events.
	spec := &model.TreeSpec{Leaves: []*model.V{s("Ab"), i(1), n()}, Names: []string{"a", "b", "a.b"}}
	var ts []*model.V
	for k := 1; k <= pr.Pick(tier, 4, 5); k++ {
		ts = append(ts, spec.Objects(k)...)
	}
	ts = append(ts, pr.Nils(4)...)
	// Many events through one processor.
	for _, count := range model.Runs(pr.Pick(tier, 3000, 70000)) {
		for _, o := range []opt{{typ, "a", "", false}, {typ, "a", "b", false}, {typ, "a.b", "a", true}, {typ, "b", "y.z", true}} {
			o, count := o, count
			if !yield(fmt.Sprint(count, " events: ", o), func(t *mc.T) {
				p := o.proc(t)
				for k := 0; k < count; k++ {
					if k%2 == 0 {
						run(t, p, o, ts[(k/2+k/len(ts))%len(ts)])
					} else {
						run(t, p, o, kv("a", s(fmt.Sprint("Text ", k)), "b", kv("b", s(fmt.Sprint(k, "É")))))
					}
				}
			}) {
				return false
			}
		}
	}
	keys := append(pr.Keys([]string{"a", "b", "a.b"}, 2), "a.b.b", ".a..b", "zz", "y.z", ".")
	for _, f := range keys {
		for _, to := range append([]string{""}, keys...) {
			f, to := f, to
			if !yield(fmt.Sprintf("%s %q to %q", typ, f, to), func(t *mc.T) {
				for _, ign := range []bool{false, true} {
					o := opt{typ, f, to, ign}
					p := o.proc(t)
					for _, tree := range ts {
						run(t, p, o, tree)
						// The same event again and again.
						pr.Again(t, tree, func(tree *model.V, mk func() *event.Event) *event.Event { return turn(t, p, o, tree, mk) })
					}
				}
				t.Sample(func() string { return opt{typ, f, to, false}.String() })
			}) {
				return false
			}
		}
	}
	for _, name := range model.OddNames() {
		name := name
		if !yield(fmt.Sprintf("%s name %q", typ, pr.Clip2(name, 40)), func(t *mc.T) { odd(t, typ, name) }) {
			return false
		}
	}
	return yield(typ+" kinds", func(t *mc.T) {
		for _, v := range model.Scalars() {
			for _, w := range []*model.V{v, a(v), a(s("Ab"), v), kv("A", v)} {
				for _, to := range []string{"", "f", "g", "f.g", "o.p"} {
					o := opt{typ, "f", to, false}
					run(t, o.proc(t), o, kv("f", w, "o", i(1)))
				}
			}
		}
	})
}

// odd uses an unusual name as source and as target, next to names it might be
// confused with.
func odd(t *mc.T, typ, name string) {
	other := func(k int) *model.V { return s(fmt.Sprintf("oTher%d", k)) }
	model.Twins(name, other, func(key, twin string, path, twinPath []string, tree *model.V) {
		for _, o := range []opt{{typ, key, twin, false}, {typ, twin, key, true}} {
			run(t, o.proc(t), o, tree)
		}
	})
	model.OddKeys(name, func(key string, path []string, mk func(*model.V) *model.V) {
		for _, leaf := range []*model.V{nil, n(), s("aBc"), s("abc"), s("ABC"), s(name), i(1), a(), kv("q", s("aB"))} {
			tree := mk(model.OddTree(name, leaf, other))
			tree.O["sRc"] = s("Source")
			for f := 0; f < 4; f++ {
				o := opt{typ, key, []string{"", key, "out", "out.in"}[f], f&1 != 0}
				run(t, o.proc(t), o, tree)
			}
			o := opt{typ, "sRc", key, false}
			run(t, o.proc(t), o, tree)
		}
	})
	for _, to := range []string{"", "f", "g", "g.h"} {
		o := opt{typ, "f", to, false}
		run(t, o.proc(t), o, kv("f", s(name), "F", s("Ab")))
		run(t, o.proc(t), o, kv("f", s(strings.ToLower(name)), "g", s(name)))
		run(t, o.proc(t), o, kv("f", s(strings.ToUpper(name)), "g", s(name)))
	}
}
