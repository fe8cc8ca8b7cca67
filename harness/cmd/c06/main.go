// C06: map conversion round-trips every event and every map.
package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"

	"verif/mc"
	"verif/model"
)

func pick(tier string, q, th int) int {
	if tier == "thorough" {
		return th
	}
	return q
}

// plain renders a model value as ordinary Go values; style picks among
// equivalent Go representations.
func plain(v *model.V, style int) interface{} {
	switch v.K {
	case model.Null:
		return nil
	case model.Bool:
		return v.B
	case model.Int:
		switch {
		case style == 1 && v.I >= math.MinInt8 && v.I <= math.MaxInt8:
			return int8(v.I)
		case style == 2 && v.I >= math.MinInt16 && v.I <= math.MaxInt16:
			return int16(v.I)
		case style == 3 && v.I >= math.MinInt32 && v.I <= math.MaxInt32:
			return int32(v.I)
		case style == 4:
			return int(v.I)
		}
		return v.I
	case model.Uint:
		switch {
		case style == 1 && v.U <= math.MaxUint8:
			return uint8(v.U)
		case style == 2 && v.U <= math.MaxUint16:
			return uint16(v.U)
		case style == 3 && v.U <= math.MaxUint32:
			return uint32(v.U)
		case style == 4:
			return uint(v.U)
		}
		return v.U
	case model.Float:
		if style == 1 && float64(float32(v.F)) == v.F {
			return float32(v.F)
		}
		return v.F
	case model.String:
		return v.S
	case model.Time:
		ts := time.Unix(0, v.I)
		switch style {
		case 1:
			return ts.In(time.FixedZone("x", 3600*5+1800))
		case 2:
			return &ts
		}
		return ts.UTC()
	case model.Array:
		a := make([]interface{}, 0, len(v.A))
		for _, e := range v.A {
			a = append(a, plain(e, style))
		}
		return a
	case model.Object:
		m := make(map[string]interface{}, len(v.O))
		for k, e := range v.O {
			m[k] = plain(e, style)
		}
		return m
	}
	panic("kind")
}

// same compares a plain Go value with the model value it must denote.
func same(v *model.V, got interface{}) bool {
	switch v.K {
	case model.Null:
		return got == nil
	case model.Bool:
		return got == v.B
	case model.Int:
		return got == v.I
	case model.Uint:
		return got == v.U
	case model.Float:
		f, ok := got.(float64)
		return ok && (math.Float64bits(f) == math.Float64bits(v.F) || f != f && v.F != v.F)
	case model.String:
		return got == v.S
	case model.Time:
		ts, ok := got.(time.Time)
		return ok && ts.Equal(time.Unix(0, v.I)) && ts.Location() == time.UTC
	case model.Array:
		a, ok := got.([]interface{})
		if !ok || len(a) != len(v.A) {
			return false
		}
		for i := range a {
			if !same(v.A[i], a[i]) {
				return false
			}
		}
		return true
	case model.Object:
		m, ok := got.(map[string]interface{})
		if !ok || len(m) != len(v.O) {
			return false
		}
		for k, e := range v.O {
			f, ok := m[k]
			if !ok || !same(e, f) {
				return false
			}
		}
		return true
	}
	return false
}

// containers lists the places where a nested plain value can be changed.
func scribblePlain(x interface{}) {
	switch y := x.(type) {
	case map[string]interface{}:
		for k, e := range y {
			scribblePlain(e)
			y[k] = "scribble"
		}
		if y != nil {
			y["scribble"] = 1
		}
	case []interface{}:
		for i, e := range y {
			scribblePlain(e)
			y[i] = "scribble"
		}
	case *time.Time:
		*y = time.Unix(9, 9)
	}
}

// scribble changes every part of an event that hangs off it and is not shared
// by design (the null value is one shared constant).
func scribble(v *event.Value) {
	if v == nil || v.Type == event.NullType {
		return
	}
	for _, e := range v.Array {
		scribble(e)
	}
	for i := range v.Array {
		v.Array[i] = event.String("scribble")
	}
	for k, e := range v.Object {
		scribble(e)
		v.Object[k] = event.String("scribble")
	}
	if v.Object != nil {
		v.Object["scribble"] = event.Bool(true)
	}
	*v = event.Value{Type: event.StringType, String: "scribble"}
}

func members(e *event.Event) []*event.Value {
	var out []*event.Value
	if r := e.Get("."); r != nil {
		for _, v := range r.Object {
			out = append(out, v)
		}
	}
	return out
}

func one(t *mc.T, root *model.V) {
	for style := 0; style <= 4; style++ {
		style := style
		t.At(func() string { return fmt.Sprintf("map %s, Go representation %d", root.Canon(), style) })
		t.Eval(1)
		in := plain(root, style).(map[string]interface{})
		e, err := mapinterface.ToEvent(in)
		if err != nil {
			t.Fail("ToEvent: %v", err)
		}
		if !model.MatchEvent(root, e) {
			t.Fail("ToEvent gives %s", model.Snapshot(e).Canon())
		}
		out := mapinterface.FromEvent(e)
		if !same(root, toMap(out)) {
			t.Fail("map -> event -> map gives %#v", out)
		}
		// The event does not follow its input, nor the output the event.
		scribblePlain(in)
		if !model.MatchEvent(root, e) {
			t.Fail("changing the input map after ToEvent changed the event to %s", model.Snapshot(e).Canon())
		}
		again := mapinterface.FromEvent(e)
		scribblePlain(again)
		if !model.MatchEvent(root, e) {
			t.Fail("changing the map from FromEvent changed the event to %s", model.Snapshot(e).Canon())
		}
		for _, v := range members(e) {
			scribble(v)
		}
		if !same(root, toMap(out)) {
			t.Fail("changing the event after FromEvent changed the map to %#v", out)
		}
	}
	// Event -> map -> event.
	t.At(func() string { return "event " + root.Canon() })
	t.Eval(1)
	e := model.Build(root)
	m := mapinterface.FromEvent(e)
	if !same(root, toMap(m)) {
		t.Fail("FromEvent gives %#v", m)
	}
	back, err := mapinterface.ToEvent(m)
	if err != nil {
		t.Fail("ToEvent(FromEvent(e)): %v", err)
	}
	if !model.MatchEvent(root, back) || !model.MatchEvent(root, e) {
		t.Fail("event -> map -> event gives %s", model.Snapshot(back).Canon())
	}
	// An event that was changed in place is converted as it is then.
	root2 := root.Clone()
	if !model.Tweak(back, root2, 7) {
		t.Fail("fields of the converted event share a value: after changing each in place it is %s", model.Snapshot(back).Canon())
	}
	if m2 := mapinterface.FromEvent(back); !same(root2, toMap(m2)) {
		t.Fail("the event was changed in place to %s; converting it gives %#v", root2.Canon(), m2)
	}
	if !model.Tweak(back, root2, 8) {
		t.Fail("fields of the converted event share a value: after changing each in place it is %s", model.Snapshot(back).Canon())
	}
	if m2 := mapinterface.FromEvent(back); !same(root2, toMap(m2)) {
		t.Fail("the event was changed in place to %s; converting it again gives %#v", root2.Canon(), m2)
	}
	for _, v := range members(back) {
		scribble(v)
	}
	if !model.MatchEvent(root, e) || !same(root, toMap(m)) {
		t.Fail("changing the second event changed the first or the map")
	}
	t.Outcome(root.Canon())
}

func toMap(m map[string]interface{}) interface{} {
	if m == nil {
		return map[string]interface{}{}
	}
	return m
}

// rootBackslash checks top-level names holding a backslash. The library reads
// such a name with the key syntax (known finding C06-root-backslash).
func rootBackslash(t *mc.T, name string, v *model.V) {
	t.At(func() string { return fmt.Sprintf("map with top-level name %q: %s", name, v.Canon()) })
	t.Eval(1)
	in := map[string]interface{}{name: plain(v, 0)}
	want := model.KV(name, v)
	asKey := model.NewTree()
	_, perr := asKey.Put(model.Path(model.Escape(name)), v.Clone(), true)
	e, err := mapinterface.ToEvent(in)
	var got *model.V
	if err == nil {
		got = model.Snapshot(e)
	}
	switch {
	case err == nil && model.Equal(got, want):
		if out := mapinterface.FromEvent(e); !same(want, toMap(out)) {
			t.Fail("map -> event -> map gives %#v", out)
		}
	case err == nil && perr == model.OK && model.Equal(got, asKey.Root), err != nil && perr != model.OK:
		if !t.KnownFinding("root-backslash") {
			t.Fail("the name is read as a key: the event is %v (%v)", got.Canon(), err)
		}
	default:
		t.Fail("the event is %v (error %v)", got.Canon(), err)
	}
}

func main() {
	mixed := &model.TreeSpec{Leaves: []*model.V{model.I(1), model.S("x"), model.N(), model.T(5), model.U(7)}, Names: []string{"a", "b.c", "d"}}
	deep := &model.TreeSpec{Leaves: []*model.V{model.I(1), model.N()}, Names: []string{"", "x.y", `p\q`, "."}}
	mc.Main(&mc.Check{
		ID: "C06", Level: "exploration",
		Rule:        "every value tree up to the stated size in every Go representation, converted in both directions, compared, and every part of input and output then overwritten to expose sharing; a case is non-trivial when it converted (distinct by tree)",
		Assumptions: []string{"times outside the 64-bit nanosecond range have no event value"},
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"tree_nodes": pick(tier, 5, 6), "unusual_name_tree_nodes": pick(tier, 5, 6), "nesting": pick(tier, 150, 600)}
		},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			list := func(name string, l []*model.V) bool {
				for lo := 0; lo < len(l); lo += 60 {
					hi := lo + 60
					if hi > len(l) {
						hi = len(l)
					}
					part := l[lo:hi]
					if !yield(fmt.Sprintf("%s %d", name, lo), func(t *mc.T) {
						for _, v := range part {
							one(t, v)
						}
						t.Sample(func() string { return part[0].Canon() })
					}) {
						return false
					}
				}
				return true
			}
			sc := []*model.V{model.O(nil)}
			for _, v := range model.Scalars() {
				sc = append(sc, model.KV("a", v), model.KV("a", model.A(v, v)), model.KV("a", model.KV("b", v)), model.KV("a", model.A(model.KV("b", model.A(v)), model.N())), model.KV("a", v, "b", v, "c.d", v))
			}
			for k := 0; k < 64; k++ {
				for d := int64(-2); d <= 2; d++ {
					u := uint64(1)<<uint(k) + uint64(d)
					sc = append(sc, model.KV("i", model.I(int64(u)), "j", model.I(-int64(u)), "u", model.U(u), "t", model.T(int64(u)), "s", model.T(-int64(u)), "f", model.F(math.Float64frombits(u)), "g", model.F(float64(u))))
				}
			}
			for b := 0; b < 256; b++ {
				s := string([]byte{byte(b)})
				if b != '\\' {
					sc = append(sc, model.KV(s, model.I(1)), model.KV("a"+s+"b", model.KV(s+s, model.N())))
				}
				sc = append(sc, model.KV("a", model.KV(s, model.I(1), "x"+s, model.A(model.KV(s, model.S(s))))))
			}
			for n := 1; n <= 140; n++ {
				o, a := model.O(nil), model.A()
				for i := 0; i < n; i++ {
					o.O[fmt.Sprintf("k%d", i)] = model.I(int64(i))
					a.A = append(a.A, model.I(int64(i)))
				}
				sc = append(sc, o, model.KV("o", o, "a", a), model.KV(strings.Repeat("k", n), model.KV(strings.Repeat("j.", n), model.S(strings.Repeat("v", n)))), model.KV(strings.Repeat(".", n), model.I(1)))
			}
			if !list("scalars", sc) {
				return
			}
			for _, d := range model.Sizes(pick(tier, 150, 600), 9000) {
				d := d
				if !yield(fmt.Sprintf("nesting %d", d), func(t *mc.T) {
					for _, kind := range []string{"o", "a", "oa"} {
						v := model.I(1)
						for i := 0; i < d; i++ {
							if kind[i%len(kind)] == 'o' {
								v = model.KV("n.m", v)
							} else {
								v = model.A(v)
							}
						}
						one(t, model.KV("r", v))
					}
				}) {
					return
				}
			}
			for _, name := range model.OddNames() {
				name := name
				if !yield("name "+mc.Short(name), func(t *mc.T) {
					for _, leaf := range []*model.V{model.I(1), model.S(name), model.N(), model.T(5)} {
						o := model.OddTree(name, model.KV(name, leaf, "l", model.A(leaf, model.KV(name, leaf))), func(k int) *model.V { return model.I(int64(k)) })
						r := model.KV("n", o)
						for k, v := range o.O {
							if !strings.Contains(k, `\`) {
								r.O[k] = v
							}
						}
						one(t, r)
						one(t, model.KV("r.s", model.A(o, model.A(o))))
					}
				}) {
					return
				}
			}
			for _, w := range model.WideSizes() {
				w := w
				if !yield(fmt.Sprint("wide ", w), func(t *mc.T) {
					for _, v := range model.Wide(w) {
						one(t, v)
					}
				}) {
					return
				}
			}
			for _, name := range []string{`\`, `a\`, `\a`, `a\b`, `a\.b`, `\.`, `.\`, `a.\b`, `\\`, `\\.`, `a\..b`, `\.a.b`} {
				name := name
				if !yield("root backslash "+name, func(t *mc.T) {
					for _, v := range []*model.V{model.I(1), model.N(), model.KV(`c\d`, model.I(2)), model.A(model.I(1))} {
						rootBackslash(t, name, v)
					}
				}) {
					return
				}
			}
			if !yield("empty top-level name", func(t *mc.T) {
				for _, m := range []map[string]interface{}{{"": 1}, {"": map[string]interface{}{"a": 1}, "b": 2}} {
					m := m
					t.At(func() string { return fmt.Sprintf("%#v", m) })
					t.Eval(1)
					e, err := mapinterface.ToEvent(m)
					if err == nil && !reflect.DeepEqual(toMap(mapinterface.FromEvent(e)), norm(m)) {
						t.Fail("a field was lost silently: %s", model.Snapshot(e).Canon())
					}
				}
				for _, m := range []map[string]interface{}{nil, {}} {
					e, err := mapinterface.ToEvent(m)
					if err != nil || e == nil || !model.MatchEvent(model.O(nil), e) {
						t.Fail("ToEvent of an empty map: %v", err)
					}
				}
			}) {
				return
			}
			for n := 2; n <= pick(tier, 5, 6); n++ {
				if !list(fmt.Sprintf("trees %d", n), mixed.Objects(n)) {
					return
				}
				// Unusual names below one top-level name (the root takes keys).
				var l []*model.V
				for _, o := range deep.Objects(n - 1) {
					l = append(l, model.KV("r.s", o), model.KV("r", model.A(o)))
				}
				if !list(fmt.Sprintf("unusual names %d", n), l) {
					return
				}
			}
		},
	})
}

func norm(m map[string]interface{}) interface{} {
	out := map[string]interface{}{}
	for k, v := range m {
		switch x := v.(type) {
		case int:
			out[k] = int64(x)
		case map[string]interface{}:
			out[k] = norm(x)
		default:
			out[k] = v
		}
	}
	return out
}
