// C05: protocol buffer serialization round-trips every event.
package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"github.com/golang/protobuf/proto"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"

	"verif/mc"
	"verif/model"
)

func pick(tier string, q, th int) int {
	if tier == "thorough" {
		return th
	}
	return q
}

func real(root *model.V) *event.Event {
	m := map[string]*event.Value{}
	for k, v := range root.O {
		m[k] = v.Real()
	}
	// Through the root object, which takes names that no key spells.
	e := event.New()
	if _, err := e.Put("x", event.NullValue); err != nil {
		panic(err)
	}
	fields := e.Get(".").Object
	delete(fields, "x")
	for k, v := range m {
		fields[k] = v
	}
	return e
}

func utf8Names(v *model.V) bool {
	for k := range v.O {
		if !utf8.ValidString(k) {
			return false
		}
	}
	for _, e := range v.O {
		if !utf8Names(e) {
			return false
		}
	}
	for _, e := range v.A {
		if !utf8Names(e) {
			return false
		}
	}
	return true
}

var retained model.Retained

func roundtrip(t *mc.T, root *model.V) {
	t.At(func() string { return "event " + root.Canon() })
	t.Eval(1)
	e := real(root)
	w := protobuf.FromEvent(e)
	a, errA := proto.Marshal(w)
	b, errB := w.Marshal()
	if !utf8Names(root) {
		return
	}
	if errA != nil || errB != nil {
		t.Fail("encoding failed: proto.Marshal: %v, Marshal: %v", errA, errB)
	}
	if !model.MatchEvent(root, e) {
		t.Fail("encoding changed the event to %s", model.Snapshot(e).Canon())
	}
	for i, wire := range [][]byte{a, b} {
		if was, now, changed := retained.Add(wire); changed {
			t.Fail("the result of an earlier encoding changed from %x to %x", clip([]byte(was)), clip(now))
		}
		for j := 0; j < 2; j++ {
			var m protobuf.MessageWrapper
			var err error
			data := append([]byte{}, wire...)
			if j == 0 {
				err = proto.Unmarshal(data, &m)
			} else {
				err = m.Unmarshal(data)
			}
			if err != nil {
				t.Fail("decoding own encoding %x failed (encoder %d, decoder %d): %v", clip(wire), i, j, err)
			}
			model.Scribble(data) // the caller's buffer is its own again
			back := protobuf.ToLogEvent(m.GetLog())
			if back == nil {
				t.Fail("the event is lost (nil) after the round trip")
			}
			got := back.Get(".")
			if got == nil {
				got = event.Object(nil)
			}
			if g := model.From(got); !model.Equal(g, root) {
				t.Fail("round trip (encoder %d, decoder %d) gives %s", i, j, g.Canon())
			}
		}
	}
	// Without wire bytes.
	back := protobuf.ToLogEvent(w.GetLog())
	if back == nil || !model.MatchEvent(root, back) {
		t.Fail("conversion to a message and back gives another event")
	}
	// An event that was changed in place is encoded as it is then.
	again, root2 := real(root), root.Clone()
	protobuf.FromEvent(again)
	if !model.Tweak(again, root2, 7) {
		t.Fail("harness: fields of the event share a value")
	}
	if back = protobuf.ToLogEvent(protobuf.FromEvent(again).GetLog()); back == nil || !model.MatchEvent(root2, back) {
		t.Fail("the event was changed in place to %s after it had been encoded; encoding it again gives %s", root2.Canon(), model.Snapshot(back).Canon())
	}
	// Neither the message nor an event made from it sees later changes.
	model.ScrambleEvent(e)
	if back = protobuf.ToLogEvent(w.GetLog()); back == nil || !model.MatchEvent(root, back) {
		t.Fail("changing the event changed the message made from it")
	}
	model.ScrambleEvent(back)
	if back = protobuf.ToLogEvent(w.GetLog()); back == nil || !model.MatchEvent(root, back) {
		t.Fail("changing an event changed the message it was made from")
	}
	t.Outcome(string(a))
}

func clip(b []byte) []byte {
	if len(b) > 100 {
		return b[:100]
	}
	return b
}

// decode feeds arbitrary bytes.
func decode(t *mc.T, data []byte) {
	t.At(func() string { return fmt.Sprintf("wire bytes %x", data) })
	t.Eval(1)
	for j := 0; j < 2; j++ {
		var m protobuf.MessageWrapper
		var err error
		if j == 0 {
			err = proto.Unmarshal(data, &m)
		} else {
			err = m.Unmarshal(data)
		}
		if err != nil {
			continue
		}
		e := protobuf.ToLogEvent(m.GetLog())
		if e == nil {
			continue
		}
		root := model.O(nil)
		if v := e.Get("."); v != nil {
			root = model.From(v)
		}
		if root.Any(func(v *model.V) bool { return v.K == model.Bad || v.K == model.Nil }) {
			t.Fail("decoded to an event with a value of no type: %s", root.Canon())
		}
		if j == 0 && utf8Names(root) {
			roundtripQuiet(t, e, root)
			t.Outcome(string(data))
		}
	}
}

// roundtripQuiet checks that a decoded event survives another round trip.
func roundtripQuiet(t *mc.T, e *event.Event, root *model.V) {
	data, err := proto.Marshal(protobuf.FromEvent(e))
	if err != nil {
		t.Fail("encoding the decoded event %s failed: %v", root.Canon(), err)
	}
	var m protobuf.MessageWrapper
	if err := proto.Unmarshal(data, &m); err != nil {
		t.Fail("second decoding failed: %v", err)
	}
	back := protobuf.ToLogEvent(m.GetLog())
	if back == nil {
		t.Fail("the event is lost after the second round trip")
	}
	got := model.O(nil)
	if v := back.Get("."); v != nil {
		got = model.From(v)
	}
	if !model.Equal(got, root) {
		t.Fail("%s became %s in the second round trip", root.Canon(), got.Canon())
	}
}

func main() {
	leaves := []*model.V{model.I(-1), model.S("x"), model.N(), model.B(true), model.B(false), model.F(1.5), model.T(5), model.U(7), model.S("")}
	plain := &model.TreeSpec{Leaves: leaves, Names: []string{"a", "b", "c"}}
	weird := &model.TreeSpec{Leaves: []*model.V{model.I(0), model.N()}, Names: []string{"", "a.b", `a\`, `\.`, ".", "a"}}
	mc.Main(&mc.Check{
		ID: "C05", Level: "exploration",
		Rule: "every event tree up to the stated size (ordinary and unusual names), every scalar boundary, width and nesting sweeps; every byte string up to the stated length and every single-byte mutation, truncation, insertion and deletion of valid messages; a case is non-trivial when it decoded to an event (distinct by its bytes)",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"tree_nodes": 5, "unusual_name_tree_nodes": pick(tier, 5, 6), "raw_bytes": pick(tier, 2, 3), "structural_bytes": pick(tier, 5, 6), "nesting": pick(tier, 300, 3000)}
		},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			list := func(name string, l []*model.V) bool {
				for lo := 0; lo < len(l); lo += 100 {
					hi := lo + 100
					if hi > len(l) {
						hi = len(l)
					}
					part := l[lo:hi]
					if !yield(fmt.Sprintf("%s %d", name, lo), func(t *mc.T) {
						for _, v := range part {
							roundtrip(t, v)
						}
						t.Sample(func() string { return part[0].Canon() })
					}) {
						return false
					}
				}
				return true
			}
			var sc []*model.V
			sc = append(sc, model.O(nil))
			for _, v := range model.Scalars() {
				sc = append(sc, model.KV("a", v), model.KV("a", model.A(v)), model.KV("a", model.KV("b", v)), model.KV("a", model.A(model.KV("b", model.A(v)))), model.KV("a", v, "b", v), model.KV("a", model.A(v, v, model.N())))
			}
			for k := 0; k < 64; k++ {
				for d := int64(-2); d <= 2; d++ {
					u := uint64(1)<<uint(k) + uint64(d)
					sc = append(sc, model.KV("i", model.I(int64(u)), "j", model.I(-int64(u)), "u", model.U(u), "t", model.T(int64(u)), "s", model.T(-int64(u)), "f", model.F(math.Float64frombits(u)), "g", model.F(float64(u))))
				}
			}
			for b := 0; b < 256; b++ {
				s := string([]byte{byte(b)})
				sc = append(sc, model.KV("a", model.S(s), "b", model.S("x"+s+"y")), model.KV(s, model.I(1)), model.KV("a", model.KV(s, model.I(1), "x"+s, model.I(2))), model.KV("\xc3"+s, model.N()))
			}
			for n := 0; n <= 300; n++ {
				sc = append(sc, model.KV("a", model.S(string(bytes.Repeat([]byte{'v'}, n)))), model.KV(string(bytes.Repeat([]byte{'k'}, n)), model.KV(string(bytes.Repeat([]byte{'j'}, n)), model.I(int64(n)))))
			}
			for _, n := range []int{16383, 16384, 65535, 65536, 70000, 2097151, 2097152} {
				sc = append(sc, model.KV("a", model.S(string(bytes.Repeat([]byte{'v'}, n)))))
			}
			for _, n := range []int{1, 2, 3, 7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097} {
				a, o := model.A(), model.O(nil)
				for i := 0; i < n; i++ {
					a.A = append(a.A, model.I(int64(i)))
					o.O[fmt.Sprintf("k%d", i)] = model.I(int64(-i))
				}
				sc = append(sc, model.KV("a", a), o, model.KV("o", o))
			}
			if !list("scalars", sc) {
				return
			}
			for _, d := range depths(pick(tier, 300, 3000)) {
				d := d
				if !yield(fmt.Sprintf("nesting %d", d), func(t *mc.T) {
					for _, kind := range []string{"o", "a", "oa", "aao"} {
						for _, leaf := range []*model.V{model.I(1), model.N(), model.O(nil), model.A()} {
							v := leaf
							for i := 0; i < d; i++ {
								if kind[i%len(kind)] == 'o' {
									v = model.KV("n", v)
								} else {
									v = model.A(v)
								}
							}
							roundtrip(t, model.KV("r", v))
						}
					}
				}) {
					return
				}
			}
			for _, name := range model.OddNames() {
				name := name
				if !yield("name "+mc.Short(name), func(t *mc.T) {
					for _, leaf := range []*model.V{model.I(1), model.S(strings.ToValidUTF8(name, "?")), model.N(), model.T(5), model.O(nil), model.A()} {
						o := model.OddTree(name, model.KV(name, leaf, "l", model.A(leaf, model.KV(name, leaf))), func(k int) *model.V { return model.I(int64(k)) })
						if utf8.ValidString(name) {
							for k := range o.O {
								if !utf8.ValidString(k) {
									delete(o.O, k)
								}
							}
						}
						roundtrip(t, o)
						roundtrip(t, model.KV("n", o, "a", model.A(o)))
					}
				}) {
					return
				}
			}
			for _, w := range model.WideSizes() {
				w := w
				if !yield(fmt.Sprint("wide ", w), func(t *mc.T) {
					for _, v := range model.Wide(w) {
						roundtrip(t, v)
					}
				}) {
					return
				}
			}
			for n := 1; n <= 5; n++ {
				if !list(fmt.Sprintf("trees %d", n), plain.Objects(n)) || !list(fmt.Sprintf("unusual names %d", n), weird.Objects(n)) {
					return
				}
			}
			few := &model.TreeSpec{Leaves: []*model.V{model.I(0)}, Names: []string{"", "a.b", `a\\`}}
			if tier == "thorough" && !list("unusual names 6", few.Objects(6)) {
				return
			}
			// Byte strings.
			if !yield("bytes 0-1", func(t *mc.T) {
				decode(t, nil)
				for a := 0; a < 256; a++ {
					decode(t, []byte{byte(a)})
				}
			}) {
				return
			}
			for a := 0; a < 256; a++ {
				a := byte(a)
				if !yield(fmt.Sprintf("bytes %02x", a), func(t *mc.T) {
					for b := 0; b < 256; b++ {
						decode(t, []byte{a, byte(b)})
						if tier == "thorough" {
							for c := 0; c < 256; c++ {
								decode(t, []byte{a, byte(b), byte(c)})
							}
						}
					}
				}) {
					return
				}
			}
			al := []byte{0x0a, 0x12, 0x00, 0x01, 0x02, 0x04, 0x06, 0x08, 0x1a, 0x3a, 0x42, 0x80, 0xff}
			for _, a := range al {
				for _, b := range al {
					a, b := a, b
					if !yield(fmt.Sprintf("structural %02x%02x", a, b), func(t *mc.T) {
						n := pick(tier, 5, 6)
						var rec func(p []byte)
						rec = func(p []byte) {
							decode(t, p)
							if len(p) == n {
								return
							}
							for _, c := range al {
								rec(append(p[:len(p):len(p)], c))
							}
						}
						rec([]byte{a, b})
					}) {
						return
					}
				}
			}
			// Mutations of valid messages.
			var corpus []*model.V
			corpus = append(corpus, model.O(nil), model.KV("a", model.KV("b", model.A(model.I(1), model.N(), model.S("x")), "c", model.O(nil)), "d", model.A()))
			for _, v := range model.Scalars()[:24] {
				corpus = append(corpus, model.KV("a", v), model.KV("a", model.A(model.KV("b", v))))
			}
			for n := 1; n <= 3; n++ {
				corpus = append(corpus, (&model.TreeSpec{Leaves: []*model.V{model.I(300), model.S("x"), model.N(), model.T(9), model.F(2), model.U(1), model.B(true)}, Names: []string{"a", "b"}}).Objects(n)...)
			}
			for i, v := range corpus {
				v := v
				if !yield(fmt.Sprintf("mutations %d %s", i, v.Canon()), func(t *mc.T) {
					data, err := proto.Marshal(protobuf.FromEvent(real(v)))
					if err != nil {
						t.Fail("encoding %s failed: %v", v.Canon(), err)
					}
					for p := 0; p <= len(data); p++ {
						decode(t, data[:p])
						decode(t, data[p:])
						decode(t, append(append([]byte{}, data...), data[p:]...))
						if p == len(data) {
							break
						}
						decode(t, append(append([]byte{}, data[:p]...), data[p+1:]...))
						for b := 0; b < 256; b++ {
							mut := append([]byte{}, data...)
							mut[p] = byte(b)
							decode(t, mut)
							if len(data) <= pick(tier, 14, 24) {
								ins := append(append(append([]byte{}, data[:p]...), byte(b)), data[p:]...)
								decode(t, ins)
							}
						}
					}
					if len(data) <= pick(tier, 12, 16) {
						// Every pair of bytes set to structural values.
						for p := 0; p < len(data); p++ {
							for q := p + 1; q < len(data); q++ {
								for _, x := range al {
									for _, y := range al {
										mut := append([]byte{}, data...)
										mut[p], mut[q] = x, y
										decode(t, mut)
									}
								}
							}
						}
					}
				}) {
					return
				}
			}
		},
	})
}

func depths(max int) []int {
	var out []int
	for d := 1; d <= max; d += 1 + d/30 {
		out = append(out, d)
	}
	return model.WithSourceSizes(out, 3000)
}
