// C03: key syntax.
package main

import (
	"fmt"
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"

	"verif/mc"
	"verif/model"
	. "verif/store"
)

func strs(alphabet []string, max int) []string {
	out := []string{""}
	lo := 0
	for n := 1; n <= max; n++ {
		hi := len(out)
		for _, p := range out[lo:hi] {
			for _, c := range alphabet {
				out = append(out, p+c)
			}
		}
		lo = hi
	}
	return out
}

func pick(tier string, q, th int) int {
	if tier == "thorough" {
		return th
	}
	return q
}

var inits = []*model.V{
	model.O(nil),
	model.KV("a", model.KV("a", model.KV("a", model.I(1), "b", model.I(2)), "b", model.I(3), ".", model.I(8)), "b", model.KV("a", model.I(4)), "a.b", model.I(5), ".", model.KV("a", model.I(6)), ".a", model.I(7), "ab", model.KV("b", model.I(9)), "..", model.I(10)),
	model.KV("a", model.I(1), "b", model.S("x"), "a.", model.O(nil), "aa", model.N()),
}

func ops(key string) []Op {
	return []Op{New(Put, key, model.I(100)), New(TryPut, key, model.S("v")), New(Put, key, model.KV("a", model.N())), New(Delete, key, nil), New(Get, key, nil)}
}

func main() {
	basic := Probes(append(strs([]string{"a", "b", "."}, 3), `a\.b`, `\.`, `\.a`, `\..a`, `a.\.`, "ab.b", `a\.`, `\.\.`))
	run := func(t *mc.T, root *model.V, probes []Probe, seq ...Op) {
		t.At(Ops("event "+root.Canon(), seq...))
		e := model.Build(root)
		m := &model.Tree{Root: root.Clone()}
		for _, o := range seq {
			Step(t, e, m, o)
		}
		Compare(t, e, m, probes)
		t.Trace(1)
		t.State(m.Root.Canon())
	}
	oneKey := func(t *mc.T, k string) {
		if model.StrayBackslash(k) {
			stray(t, k)
			return
		}
		canon := model.Key(model.Path(k)...)
		for _, root := range inits {
			for _, o := range ops(k) {
				run(t, root, basic, o)
				for _, o2 := range ops(canon) {
					run(t, root, nil, o, o2)
				}
			}
			if canon != k {
				for _, o := range ops(canon) {
					for _, o2 := range ops(k) {
						run(t, root, nil, o, o2)
					}
				}
			}
		}
	}
	mc.Main(&mc.Check{
		ID: "C03", Level: "model_checking",
		Rule: "every key string up to the stated length over {a,b,dot,backslash}, every byte and every length, in every store operation against a reference tokenizer; every pair of short keys in sequence; every field name through EscapeKey",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"key_length": pick(tier, 7, 9), "pair_key_length": pick(tier, 3, 4), "name_length": pick(tier, 7, 9), "alphabet": `a b . \`}
		},
		Assumptions: []string{"a backslash that does not precede a dot has no documented meaning: such keys are only checked for self-consistency"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			batch := func(name string, keys []string, size int, f func(t *mc.T, k string)) bool {
				for i := 0; i < len(keys); i += size {
					end := i + size
					if end > len(keys) {
						end = len(keys)
					}
					part := keys[i:end]
					if !yield(fmt.Sprintf("%s %q..", name, clip(part[0])), func(t *mc.T) {
						for _, k := range part {
							f(t, k)
						}
						t.Sample(func() string { return fmt.Sprintf("%s %q", name, clip(part[0])) })
					}) {
						return false
					}
				}
				return true
			}
			if !batch("key", strs([]string{"a", "b", ".", `\`}, pick(tier, 7, 9)), 16, oneKey) {
				return
			}
			// Pairs of spellings.
			short := strs([]string{"a", "b", ".", `\`}, pick(tier, 3, 4))
			if !batch("pair", short, 1, func(t *mc.T, k1 string) {
				if model.StrayBackslash(k1) {
					return
				}
				for _, k2 := range short {
					if model.StrayBackslash(k2) {
						continue
					}
					for _, o1 := range ops(k1) {
						for _, o2 := range ops(k2) {
							run(t, inits[0], nil, o1, o2, New(Get, k1, nil), New(Get, k2, nil))
							run(t, inits[1], nil, o1, o2)
						}
					}
				}
			}) {
				return
			}
			// Every byte next to every structural character.
			var bytes []string
			for b := 0; b < 256; b++ {
				s := string([]byte{byte(b)})
				bytes = append(bytes, s, s+".a", "a."+s, s+`\.a`, `a\.`+s, s+s, "."+s, s+".", s+".."+s, `\.`+s+"a", "a"+s+".b"+s)
			}
			bytes = append(bytes, "é.a", `ü\.日本.😀`, "a\u2028b.c", "\xff\xfe.a", "é", "\u00e9\u0301.x")
			if !batch("byte", bytes, 11, oneKey) {
				return
			}
			// Lengths of elements, runs of dots and escapes, number of elements.
			var lens []string
			ns := []int{}
			for n := 1; n <= 130; n++ {
				ns = append(ns, n)
			}
			ns = append(ns, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 65535, 65536, 65537)
			for _, n := range ns {
				lens = append(lens, strings.Repeat("k", n), strings.Repeat("k", n)+".a", "a."+strings.Repeat("k", n), strings.Repeat(".", n), "a"+strings.Repeat(".", n)+"b", strings.Repeat(".", n)+"a", "a"+strings.Repeat(".", n),
					strings.Repeat(`\.`, n), strings.Repeat(`a\.`, n), strings.Repeat(`\.`, n)+"a", "a."+strings.Repeat(`\.`, n)+".b")
				if n <= 1025 {
					lens = append(lens, strings.TrimSuffix(strings.Repeat("a.", n), "."), strings.Repeat(`.\.`, n))
				}
			}
			if !batch("length", lens, 2, oneKey) {
				return
			}
			// Field names through EscapeKey.
			name := func(t *mc.T, n string) {
				if n == "" || strings.Contains(n, `\`) {
					return
				}
				for _, root := range inits {
					escape(t, n, root)
				}
			}
			if !batch("name", strs([]string{"a", ".", "b"}, pick(tier, 7, 9)), 8, name) {
				return
			}
			for i := range bytes {
				bytes[i] = strings.ReplaceAll(bytes[i], `\`, "")
			}
			for i := range lens {
				lens[i] = strings.ReplaceAll(lens[i], `\`, "")
			}
			if !batch("name byte", bytes, 11, name) {
				return
			}
			if !batch("name length", lens, 2, name) {
				return
			}
			batch("unusual name", model.OddNames(), 1, func(t *mc.T, n string) {
				oneKey(t, n)
				oneKey(t, model.Escape(n))
				if strings.Contains(n, `\`) {
					return
				}
				root := model.OddTree(n, model.KV("q", model.I(2)), func(k int) *model.V { return model.I(int64(k)) })
				for k := range root.O {
					if strings.Contains(k, `\`) {
						delete(root.O, k) // no event has such a field at the top
					}
				}
				escape(t, n, root)
				delete(root.O, n)
				escape(t, n, root)
			})
		},
	})
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

// escape checks that EscapeKey(name) addresses exactly the top-level field name.
func escape(t *mc.T, name string, root *model.V) {
	key := eventutil.EscapeKey(name)
	t.At(func() string {
		return fmt.Sprintf("EscapeKey(%s) = %s on %s", mc.Short(name), mc.Short(key), root.Canon())
	})
	e := model.Build(root)
	m := &model.Tree{Root: root.Clone()}
	path := []string{name}
	step := func(what string, got *event.Value, want *model.V) {
		t.Trans(1)
		if !model.Match(want, got) {
			t.Fail("%s returned %s, want %s", what, model.From(got).Canon(), want.Canon())
		}
		if !model.MatchEvent(m.Root, e) {
			t.Fail("after %s the event is %s, want %s", what, model.Snapshot(e).Canon(), m.Root.Canon())
		}
	}
	step("Get", e.Get(key), m.Get(path))
	old, want := m.Put(path, model.I(55), false)
	got, err := e.TryPut(key, event.Integer(55))
	if (err == nil) != (want == model.OK) {
		t.Fail("TryPut gave %v, want %v", err, want)
	}
	step("TryPut", got, old)
	old, _ = m.Put(path, model.KV("q", model.I(56)), true)
	got, err = e.Put(key, event.Object(map[string]*event.Value{"q": event.Integer(56)}))
	if err != nil {
		t.Fail("Put gave %v", err)
	}
	step("Put", got, old)
	step("Get below", e.Get(key+".q"), model.I(56))
	old, _ = m.Put([]string{name, "r"}, model.I(57), true)
	got, err = e.Put(key+".r", event.Integer(57))
	if err != nil {
		t.Fail("Put below gave %v", err)
	}
	step("Put below", got, old)
	old = m.Delete(path)
	step("Delete", e.Delete(key), old)
	step("Get after Delete", e.Get(key), nil)
	t.Trace(1)
}

// stray: a key with an undocumented backslash is at least self-consistent.
func stray(t *mc.T, k string) {
	t.At(func() string { return fmt.Sprintf("key %q (stray backslash)", k) })
	for _, root := range inits {
		e := model.Build(root)
		before := model.Snapshot(e).Canon()
		t.Trans(1)
		if _, err := e.Put(k, event.Integer(100)); err != nil {
			if got := model.Snapshot(e).Canon(); got != before {
				t.Fail("rejected Put changed the event to %s", got)
			}
			continue
		}
		if !model.Match(model.I(100), e.Get(k)) {
			t.Fail("Get after Put returned %s", model.From(e.Get(k)).Canon())
		}
		if _, err := e.TryPut(k, event.Integer(101)); err == nil {
			t.Fail("TryPut replaced an existing field")
		}
		if !model.Match(model.I(100), e.Delete(k)) {
			t.Fail("Delete did not return the value")
		}
		if e.Get(k) != nil {
			t.Fail("still there after Delete")
		}
		t.Trace(1)
	}
}
