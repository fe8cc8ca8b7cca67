// C27: a value stands alone.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/andrewkroh/go-sawmill/pkg/event"

	"verif/mc"
	"verif/model"
)

func pick(tier string, q, th int) int {
	if tier == "thorough" {
		return th
	}
	return q
}

// node is a reference value with identity: two places that hold the same node
// hold the same event.Value.
type node struct {
	v   model.V // kind and scalar payload
	arr []*node
	obj map[string]*node
}

func build(v *model.V) *node {
	n := &node{v: *v}
	n.v.A, n.v.O = nil, nil
	if v.K == model.Array {
		n.arr = make([]*node, 0, len(v.A))
		for _, x := range v.A {
			n.arr = append(n.arr, build(x))
		}
	}
	if v.K == model.Object {
		n.obj = map[string]*node{}
		for k, x := range v.O {
			n.obj[k] = build(x)
		}
	}
	return n
}

func (n *node) value() *model.V {
	v := n.v
	switch v.K {
	case model.Array:
		v.A = []*model.V{}
		for _, x := range n.arr {
			v.A = append(v.A, x.value())
		}
	case model.Object:
		v.O = map[string]*model.V{}
		for k, x := range n.obj {
			v.O[k] = x.value()
		}
	}
	return &v
}

// text is a JSON text with what it denotes, nil if it is none that a value can
// hold.
type text struct {
	s string
	v *model.V
}

var (
	n = model.N
	i = model.I
	s = model.S
	a = model.A
	k = model.KV
)

var texts = []text{
	{`null`, n()}, {`7`, i(7)}, {`"s"`, s("s")}, {`true`, model.B(true)}, {`1.5`, model.F(1.5)}, {`18446744073709551615`, model.U(math.MaxUint64)},
	{`[]`, a()}, {`{}`, k()}, {`[null,1]`, a(n(), i(1))}, {`[5]`, a(i(5))}, {`[[2,null],{"a":null}]`, a(a(i(2), n()), k("a", n()))},
	{`{"a":1}`, k("a", i(1))}, {`{"a":[3],"b":{"c":2}}`, k("a", a(i(3)), "b", k("c", i(2)))}, {`{"b":{"d":null}}`, k("b", k("d", n()))},
	{`[1,1e999]`, nil}, {`{"a":{"z":1e999},"b":1}`, nil}, {`{"a":1`, nil}, {`1 2`, nil}, {`[nul]`, nil}, {``, nil},
}

const slots = 3

// world is the slots, on both sides.
type world struct {
	t    *mc.T
	real [slots]*event.Value
	ref  [slots]*node
}

func (w *world) compare(o string) {
	for x := range w.real {
		if !model.Match(w.ref[x].value(), w.real[x]) {
			w.t.Fail("after %s value %d is %s, want %s", o, x, model.From(w.real[x]).Canon(), w.ref[x].value().Canon())
		}
	}
	if v := event.NullValue; v == nil || v.Type != event.NullType {
		bad := model.From(v).Canon()
		event.NullValue.Type = event.NullType
		w.t.Fail("%s changed the shared null value to %s", o, bad)
	}
}

type op struct {
	name string
	do   func(w *world)
}

func ops() []op {
	var out []op
	add := func(name string, do func(w *world)) { out = append(out, op{name, do}) }
	for x := 0; x < slots; x++ {
		x := x
		if x < 2 {
			for _, tx := range texts {
				for _, direct := range []bool{false, true} {
					tx, direct := tx, direct
					if direct && tx.v != nil && tx.s != `[null,1]` && tx.s != `7` {
						continue
					}
					how := "json.Unmarshal"
					if direct {
						how = "UnmarshalJSON"
					}
					add(fmt.Sprintf("%s(%s) into %d", how, tx.s, x), func(w *world) {
						var err error
						if direct {
							err = w.real[x].UnmarshalJSON([]byte(tx.s))
						} else {
							err = json.Unmarshal([]byte(tx.s), w.real[x])
						}
						if tx.v == nil {
							if err == nil {
								w.t.Fail("%s(%q) succeeded", how, tx.s)
							}
							// What a failed decoding leaves in its own target is
							// open; nothing else may change.
							*w.real[x], *w.ref[x] = *event.String("reset"), *build(s("reset"))
							return
						}
						if err != nil {
							w.t.Fail("%s(%s) failed: %v", how, tx.s, err)
						}
						*w.ref[x] = *build(tx.v)
					})
				}
			}
		}
		for y := 0; y < slots; y++ {
			y := y
			if x != y {
				add(fmt.Sprintf("%d = clone of %d", y, x), func(w *world) {
					w.real[y], w.ref[y] = w.real[x].Clone(), build(w.ref[x].value())
				})
				add(fmt.Sprintf("%d = [%d, null]", y, x), func(w *world) {
					w.real[y] = event.Array(w.real[x], event.NullValue)
					w.ref[y] = &node{v: model.V{K: model.Array}, arr: []*node{w.ref[x], build(n())}}
				})
				add(fmt.Sprintf("%d = a copy of the struct of %d", y, x), func(w *world) {
					c, r := *w.real[x], *w.ref[x]
					if r.arr != nil {
						r.arr = append([]*node{}, r.arr...)
					}
					w.real[y], w.ref[y] = &c, &r
				})
			}
			add(fmt.Sprintf("%d = first member of %d", y, x), func(w *world) {
				switch {
				case w.ref[x].v.K == model.Array && len(w.ref[x].arr) > 0:
					w.real[y], w.ref[y] = w.real[x].Array[0], w.ref[x].arr[0]
				case w.ref[x].v.K == model.Object && w.ref[x].obj["a"] != nil:
					w.real[y], w.ref[y] = w.real[x].Object["a"], w.ref[x].obj["a"]
				}
				if w.real[y] == event.NullValue { // not ours to decode into
					w.real[y], w.ref[y] = &event.Value{}, build(n())
				} else if w.ref[y].v.K == model.Null {
					// May be the shared null in any slot: leave it alone.
					w.real[y], w.ref[y] = &event.Value{}, build(n())
				}
			})
		}
		add(fmt.Sprintf("change the last scalar of %d", x), func(w *world) {
			r, f := w.real[x], w.ref[x]
			for {
				if f.v.K == model.Array && len(f.arr) > 0 {
					r, f = r.Array[len(f.arr)-1], f.arr[len(f.arr)-1]
				} else if f.v.K == model.Object && len(f.obj) > 0 {
					var names []string
					for name := range f.obj {
						names = append(names, name)
					}
					sort.Strings(names)
					name := names[len(names)-1]
					r, f = r.Object[name], f.obj[name]
				} else {
					break
				}
			}
			if r == event.NullValue || f.v.K == model.Null || f.v.K == model.Array || f.v.K == model.Object {
				return
			}
			*r = event.Value{Type: event.StringType, String: "changed"}
			*f = *build(s("changed"))
		})
	}
	return out
}

func fresh(t *mc.T) *world {
	w := &world{t: t}
	w.real = [slots]*event.Value{{}, event.Array(event.NullValue, event.Integer(1), event.Object(map[string]*event.Value{"a": event.Integer(2)})), event.Object(map[string]*event.Value{"a": event.Array(event.String("x")), "b": event.NullValue})}
	w.ref = [slots]*node{build(n()), build(a(n(), i(1), k("a", i(2)))), build(k("a", a(s("x")), "b", n()))}
	return w
}

func history(t *mc.T, al []op, seq []int) {
	t.At(func() string {
		var p []string
		for _, x := range seq {
			p = append(p, al[x].name)
		}
		return strings.Join(p, "; ")
	})
	w := fresh(t)
	for _, x := range seq {
		al[x].do(w)
		t.Trans(1)
		w.compare(al[x].name)
	}
	for x := range w.real {
		got, err := json.Marshal(w.real[x])
		if err != nil {
			t.Fail("encoding value %d: %v", x, err)
		}
		want := w.ref[x].value()
		var back event.Value
		if err := json.Unmarshal(got, &back); err != nil || !model.Match(want, &back) {
			t.Fail("value %d is encoded as %s, want %s (%v)", x, got, want.Canon(), err)
		}
	}
	t.Trace(1)
	t.Eval(1)
	t.State(w.ref[0].value().Canon() + w.ref[1].value().Canon() + w.ref[2].value().Canon())
}

// clone checks that a clone is equal and shares nothing: nothing that can be
// changed in one shows in the other.
func clone(t *mc.T, v *model.V) {
	t.At(func() string { return "Clone of " + short(v) })
	t.Eval(1)
	r := v.Real()
	c := r.Clone()
	if !model.Match(v, c) || !model.Match(v, r) {
		t.Fail("the clone is %s, the original %s, want %s", model.From(c).Canon(), model.From(r).Canon(), v.Canon())
	}
	if own := v.Real(); own != event.NullValue {
		alone(t, own.Clone(), r.Clone())
	}
	ruin(c)
	if !model.Match(v, r) {
		t.Fail("changing the clone changed the original to %s, want %s", model.From(r).Canon(), v.Canon())
	}
	c = r.Clone()
	ruin(r)
	if !model.Match(v, c) {
		t.Fail("changing the original changed the clone to %s, want %s", model.From(c).Canon(), v.Canon())
	}
	if event.NullValue.Type != event.NullType {
		event.NullValue.Type = event.NullType
		t.Fail("the shared null value changed")
	}
}

// ruin changes everything below a value that has content, spare capacity too.
func ruin(v *event.Value) {
	if v == nil || v == event.NullValue || v.Type == event.NullType {
		return
	}
	for x, e := range v.Array {
		ruin(e)
		v.Array[x] = event.String("ruined")
	}
	if rest := v.Array[len(v.Array):cap(v.Array)]; len(rest) > 0 {
		for x := range rest {
			rest[x] = event.String("ruined")
		}
	}
	for name, e := range v.Object {
		ruin(e)
		v.Object[name] = event.String("ruined")
	}
	if v.Object != nil {
		v.Object["ruined"] = event.String("ruined")
	}
	*v = event.Value{Type: event.StringType, String: "ruined"}
}

func short(v *model.V) string {
	c := v.Canon()
	if len(c) > 300 {
		c = c[:300] + "..."
	}
	return c
}

// printed is the documented printed form of a value: its type and content.
func printed(v *model.V, b *strings.Builder) {
	switch v.K {
	case model.Nil:
		b.WriteString("<nil>")
	case model.Null:
		b.WriteString("null_type:<nil>")
	case model.Bool:
		fmt.Fprintf(b, "bool_type:%t", v.B)
	case model.Int:
		b.WriteString("integer_type:" + strconv.FormatInt(v.I, 10))
	case model.Uint:
		b.WriteString("unsigned_integer_type:" + strconv.FormatUint(v.U, 10))
	case model.Time:
		b.WriteString("timestamp_type:" + strconv.FormatInt(v.I, 10))
	case model.Float:
		fmt.Fprintf(b, "float_type:%v", v.F)
	case model.String:
		b.WriteString("string_type:" + v.S)
	case model.Array:
		b.WriteString("array_type:[")
		for x, e := range v.A {
			if x > 0 {
				b.WriteByte(' ')
			}
			printed(e, b)
		}
		b.WriteByte(']')
	case model.Object:
		b.WriteString("object_type:map[")
		for x, name := range model.Names(v) {
			if x > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(name + ":")
			printed(v.O[name], b)
		}
		b.WriteByte(']')
	}
}

func print(t *mc.T, v *model.V) {
	t.At(func() string { return "printing " + short(v) })
	t.Eval(1)
	r := v.Real()
	var b strings.Builder
	printed(v, &b)
	for _, got := range []string{fmt.Sprint(r), fmt.Sprintf("%v", r), fmt.Sprintf("%s", r), fmt.Sprintf("%d", r)} {
		if v.K == model.Nil {
			break // not a value
		}
		if got != b.String() {
			t.Fail("printed as %q, want %q", clip(got), clip(b.String()))
		}
	}
	if !model.Match(v, r) {
		t.Fail("printing changed the value")
	}
	t.Outcome(b.String())
}

// alone checks that no two places, in the given values, are the same place.
// Nulls have nothing to change, so one may serve everywhere.
func alone(t *mc.T, vs ...*event.Value) {
	seen := map[interface{}]bool{}
	see := func(x interface{}, what string) {
		if seen[x] {
			t.Fail("two places share one %s", what)
		}
		seen[x] = true
	}
	var walk func(v *event.Value)
	walk = func(v *event.Value) {
		if v == nil || v.Type == event.NullType {
			return
		}
		see(v, "value")
		if cap(v.Array) > 0 {
			see(&v.Array[:1][0], "array")
		}
		for _, e := range v.Array {
			walk(e)
		}
		if v.Object != nil {
			see(reflect.ValueOf(v.Object).Pointer(), "object")
		}
		for _, e := range v.Object {
			walk(e)
		}
	}
	for _, v := range vs {
		walk(v)
	}
}

// decoded decodes the text of a value twice.
func decoded(t *mc.T, v *model.V) {
	if v.Any(func(x *model.V) bool {
		return x.K == model.Nil || x.K == model.Time || x.K == model.Float && (x.F-x.F != 0 || x.F == 0 || x.F == math.Trunc(x.F)) || x.K == model.Uint && x.U < 1<<63 || !utf8.ValidString(x.S) || !names(x)
	}) {
		return // no JSON text of its own
	}
	t.At(func() string { return "decoding " + short(v) + " twice" })
	t.Eval(1)
	text, err := json.Marshal(v.Real())
	if err != nil {
		t.Fail("encoding: %v", err)
	}
	var x, y event.Value
	if err := json.Unmarshal(text, &x); err != nil {
		t.Fail("decoding %s: %v", clip(string(text)), err)
	}
	if err := y.UnmarshalJSON(text); err != nil {
		t.Fail("decoding %s: %v", clip(string(text)), err)
	}
	if !model.Match(v, &x) || !model.Match(v, &y) {
		t.Fail("decoded as %s and %s", clip(model.From(&x).Canon()), clip(model.From(&y).Canon()))
	}
	alone(t, &x, &y)
}

func names(v *model.V) bool {
	for k := range v.O {
		if !utf8.ValidString(k) {
			return false
		}
	}
	return true
}

func clip(s string) string {
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// holders decode values as parts of other Go values, a second time too.
func holders(t *mc.T) {
	type host struct {
		V *event.Value
		N event.Value
		A []event.Value
		P []*event.Value
		M map[string]event.Value
	}
	for _, t1 := range texts {
		for _, t2 := range texts {
			if t1.v == nil || t2.v == nil {
				continue
			}
			t.Atf("decoding " + t1.s + " and then " + t2.s + " as parts of a struct")
			t.Eval(1)
			doc := func(x string) []byte {
				return []byte(`{"V":` + x + `,"N":` + x + `,"A":[` + x + `,` + x + `],"P":[` + x + `],"M":{"m":` + x + `}}`)
			}
			var h host
			for _, tx := range []text{t1, t2} {
				// A null for a pointer is Go's nil pointer.
				if err := json.Unmarshal(doc(tx.s), &h); err != nil {
					t.Fail("failed: %v", err)
				}
				m := h.M["m"]
				for where, got := range map[string]*event.Value{"V": h.V, "N": &h.N, "A[0]": &h.A[0], "A[1]": &h.A[1], "P[0]": h.P[0], "M": &m} {
					if got == nil && tx.v.K == model.Null && (where == "V" || where == "P[0]") {
						continue
					}
					if !model.Match(tx.v, got) {
						t.Fail("%s is %s after decoding %s", where, model.From(got).Canon(), tx.s)
					}
				}
			}
			if event.NullValue.Type != event.NullType {
				event.NullValue.Type = event.NullType
				t.Fail("the shared null value changed")
			}
		}
	}
}

func nilNulls(v *model.V, nth *int, at int) *model.V {
	c := *v
	if v.K == model.Null {
		if *nth == at {
			c.K = model.Nil
		}
		*nth++
		return &c
	}
	if v.A != nil {
		c.A = nil
		for _, e := range v.A {
			c.A = append(c.A, nilNulls(e, nth, at))
		}
	}
	if v.O != nil {
		c.O = map[string]*model.V{}
		for _, name := range model.Names(v) {
			c.O[name] = nilNulls(v.O[name], nth, at)
		}
	}
	return &c
}

func main() {
	al := ops()
	mc.Main(&mc.Check{
		ID: "C27", Level: "model_checking",
		Rule: "every history to a depth of decodings (of texts that fit and that do not), clonings, struct copies, sharings and in-place changes over three values, in lockstep with a reference heap of values with identity, all values and the shared null compared after each step; every value tree to a size (nil pointers and nil containers included), wide and deep values: cloned and ruined on either side, and printed",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"operations": len(al), "history": pick(tier, 3, 4), "tree_nodes": pick(tier, 6, 7), "nesting": pick(tier, 300, 3000)}
		},
		Assumptions: []string{"what a failed decoding leaves in its own target is open; null members may be one shared value"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			depth := pick(tier, 3, 4)
			for x := range al {
				for y := range al {
					x, y := x, y
					if !yield("history "+al[x].name+"; "+al[y].name, func(t *mc.T) {
						var rec func(seq []int)
						rec = func(seq []int) {
							history(t, al, seq)
							if len(seq) == depth {
								return
							}
							for z := range al {
								rec(append(seq[:len(seq):len(seq)], z))
							}
						}
						rec([]int{x, y})
					}) {
						return
					}
				}
			}
			if !yield("holders", holders) {
				return
			}
			both := func(t *mc.T, v *model.V) {
				clone(t, v)
				print(t, v)
				decoded(t, v)
			}
			list := func(name string, l []*model.V, nils bool) bool {
				for lo := 0; lo < len(l); lo += 500 {
					hi := lo + 500
					if hi > len(l) {
						hi = len(l)
					}
					part := l[lo:hi]
					if !yield(fmt.Sprintf("%s %d", name, lo), func(t *mc.T) {
						for _, v := range part {
							both(t, v)
							for at := 0; nils; at++ {
								nth := 0
								w := nilNulls(v, &nth, at)
								if at >= nth {
									break
								}
								both(t, w)
							}
						}
					}) {
						return false
					}
				}
				return true
			}
			var sc []*model.V
			for _, v := range append(model.Scalars(), model.NilV()) {
				sc = append(sc, v, a(v), k("x", v), a(v, v, k("y", v)), k("", v, "a.b", a(a(v))), a(k("y", v), k("y", v)))
			}
			for _, name := range model.OddNames() {
				sc = append(sc, s(name), k(name, s(name)), a(s(name), k(name, n())))
			}
			if !list("scalars", sc, false) {
				return
			}
			spec := &model.TreeSpec{Leaves: []*model.V{n(), i(1), s("x"), a(), k()}, Names: []string{"a", "b"}}
			for size := 1; size <= pick(tier, 5, 6); size++ {
				if !list(fmt.Sprintf("trees of %d", size), spec.Of(size), true) {
					return
				}
			}
			for _, w := range model.WideSizes() {
				w := w
				if !yield(fmt.Sprint("wide ", w), func(t *mc.T) {
					for _, v := range model.Wide(w) {
						both(t, v)
					}
				}) {
					return
				}
			}
			for _, d := range model.Sizes(pick(tier, 200, 1000), 3000) {
				d := d
				if !yield(fmt.Sprint("nesting ", d), func(t *mc.T) {
					for kind := 0; kind < 3; kind++ {
						v := i(1)
						for x := 0; x < d; x++ {
							if kind == 0 || kind == 2 && x%2 == 0 {
								v = a(v, i(int64(x)))
							} else {
								v = k("m", v, "n", i(int64(x)))
							}
						}
						both(t, v)
					}
				}) {
					return
				}
			}
			// Every type a value may claim to have, none of which is text.
			yield("type names", func(t *mc.T) {
				known := map[event.ValueType]string{event.NullType: "null_type", event.ArrayType: "array_type", event.BoolType: "bool_type", event.FloatType: "float_type", event.IntegerType: "integer_type", event.ObjectType: "object_type", event.StringType: "string_type", event.TimestampType: "timestamp_type", event.UnsignedIntegerType: "unsigned_integer_type"}
				for x := 0; x < 256; x++ {
					t.Atf(fmt.Sprint("type ", x))
					t.Eval(1)
					want, ok := known[event.ValueType(x)]
					if !ok {
						want = "unknown_type"
					}
					if got := event.ValueType(x).String(); got != want {
						t.Fail("its name is %q, want %q", got, want)
					}
					v := &event.Value{Type: event.ValueType(x)}
					if got := fmt.Sprint(v); !strings.HasPrefix(got, want+":") {
						t.Fail("printed as %q", got)
					}
				}
			})
		},
	})
}
