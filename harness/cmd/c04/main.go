// C04: event JSON is lossless in both directions.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/andrewkroh/go-sawmill/pkg/event"

	"verif/mc"
	"verif/model"
)

func pick(tier string, q, th int) int {
	if tier == "thorough" {
		return th
	}
	return q
}

// parse reads a JSON document with exact numbers.
func parse(text []byte) (v interface{}, dups bool, err error) {
	dec := json.NewDecoder(bytes.NewReader(text))
	dec.UseNumber()
	v, dups, err = parseValue(dec)
	if err != nil {
		return nil, false, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, false, fmt.Errorf("trailing data")
	}
	return v, dups, nil
}

func parseValue(dec *json.Decoder) (interface{}, bool, error) {
	tok, err := dec.Token()
	if err != nil {
		return nil, false, err
	}
	switch tok {
	case json.Delim('['):
		a := []interface{}{}
		dups := false
		for dec.More() {
			v, d, err := parseValue(dec)
			if err != nil {
				return nil, false, err
			}
			dups = dups || d
			a = append(a, v)
		}
		_, err := dec.Token()
		return a, dups, err
	case json.Delim('{'):
		o := map[string]interface{}{}
		dups := false
		for dec.More() {
			k, err := dec.Token()
			if err != nil {
				return nil, false, err
			}
			v, d, err := parseValue(dec)
			if err != nil {
				return nil, false, err
			}
			dups = dups || d
			if _, ok := o[k.(string)]; ok {
				dups = true
			}
			o[k.(string)] = v
		}
		_, err := dec.Token()
		return o, dups, err
	}
	return tok, false, nil
}

var maxU = new(big.Int).SetUint64(math.MaxUint64)
var minI = big.NewInt(math.MinInt64)

// numEqual says whether out is an acceptable rendering of in.
func numEqual(in, out json.Number) bool {
	if i, ok := new(big.Int).SetString(in.String(), 10); ok && i.Cmp(minI) >= 0 && i.Cmp(maxU) <= 0 {
		r, ok := new(big.Rat).SetString(out.String())
		return ok && r.IsInt() && r.Num().Cmp(i) == 0
	}
	a, err1 := strconv.ParseFloat(in.String(), 64)
	b, err2 := strconv.ParseFloat(out.String(), 64)
	return err1 == nil && err2 == nil && a == b
}

// overflows says that the document holds a number with no nearest double.
func overflows(v interface{}) bool {
	switch x := v.(type) {
	case json.Number:
		_, err := strconv.ParseFloat(x.String(), 64)
		return err != nil
	case []interface{}:
		for _, e := range x {
			if overflows(e) {
				return true
			}
		}
	case map[string]interface{}:
		for _, e := range x {
			if overflows(e) {
				return true
			}
		}
	}
	return false
}

// diff compares documents.
func diff(in, out interface{}, path string) string {
	switch x := in.(type) {
	case nil:
		if out != nil {
			return fmt.Sprintf("%s: null became %v", path, out)
		}
	case json.Number:
		y, ok := out.(json.Number)
		if !ok || !numEqual(x, y) {
			return fmt.Sprintf("%s: number %s became %v", path, x, out)
		}
	case string:
		if y, ok := out.(string); !ok || x != y {
			return fmt.Sprintf("%s: string %q became %#v", path, x, out)
		}
	case bool:
		if y, ok := out.(bool); !ok || x != y {
			return fmt.Sprintf("%s: %v became %#v", path, x, out)
		}
	case []interface{}:
		y, ok := out.([]interface{})
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("%s: array of %d became %#v", path, len(x), out)
		}
		for i := range x {
			if d := diff(x[i], y[i], path+"["+strconv.Itoa(i)+"]"); d != "" {
				return d
			}
		}
	case map[string]interface{}:
		y, ok := out.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("%s: object of %d members became %#v", path, len(x), out)
		}
		for k, e := range x {
			f, ok := y[k]
			if !ok {
				return fmt.Sprintf("%s: member %q lost", path, k)
			}
			if d := diff(e, f, path+"."+k); d != "" {
				return d
			}
		}
	}
	return ""
}

// decode checks one text.
func decode(t *mc.T, text string) {
	t.At(func() string { return "JSON text " + mc.Short(text) })
	t.Eval(1)
	var e event.Event
	err := json.Unmarshal([]byte(text), &e)
	var direct event.Event
	buf := []byte(text)
	derr := direct.UnmarshalJSON(buf)
	model.Scribble(buf) // the caller's buffer is its own again
	want, dups, perr := parse([]byte(text))
	valid := perr == nil && json.Valid([]byte(text))
	if valid {
		switch want.(type) {
		case map[string]interface{}, nil:
		default:
			valid = false
		}
	}
	if !valid {
		if err == nil || derr == nil {
			t.Fail("text that is not a JSON object or null was accepted (json.Unmarshal: %v, UnmarshalJSON: %v) as %s", err, derr, model.Snapshot(&e).Canon())
		}
		return
	}
	if overflows(want) {
		return
	}
	if err != nil || derr != nil {
		t.Fail("valid JSON was refused (json.Unmarshal: %v, UnmarshalJSON: %v)", err, derr)
	}
	if dups || !utf8.ValidString(text) {
		return
	}
	if want == nil {
		want = map[string]interface{}{}
	}
	for i, ev := range []*event.Event{&e, &direct} {
		out, err := json.Marshal(ev)
		if err != nil {
			t.Fail("encoding the decoded event failed: %v", err)
		}
		got, _, perr := parse(out)
		if perr != nil {
			t.Fail("encoding yields malformed JSON %s", mc.Short(string(out)))
		}
		if d := diff(want, got, "$"); d != "" {
			t.Fail("%s (re-encoded, variant %d: %s)", d, i, mc.Short(string(out)))
		}
	}
	t.Nontrivial(1)
	t.Outcome(text)
}

var retained model.Retained

// encode checks one event built through the API.
func encode(t *mc.T, root *model.V) {
	t.At(func() string { return "event " + root.Canon() })
	t.Eval(1)
	e := model.Build(root)
	out, err := json.Marshal(e)
	direct, derr := e.MarshalJSON()
	nonFinite := root.Any(func(v *model.V) bool { return v.K == model.Float && (math.IsNaN(v.F) || math.IsInf(v.F, 0)) })
	if nonFinite {
		// No JSON document exists; only a panic would be wrong.
		return
	}
	if err != nil || derr != nil {
		t.Fail("encoding failed: json.Marshal: %v, MarshalJSON: %v", err, derr)
	}
	outs := [][]byte{out, direct}
	if v := e.Get("."); v != nil {
		// The root and one field as values of their own.
		o, err := v.MarshalJSON()
		if err != nil {
			t.Fail("encoding the root object failed: %v", err)
		}
		outs = append(outs, o)
		for k, f := range v.Object {
			if f == nil {
				continue
			}
			o, err := f.MarshalJSON()
			if err != nil {
				t.Fail("encoding the field %q failed: %v", k, err)
			}
			if was, now, changed := retained.Add(o); changed {
				t.Fail("the result of an earlier encoding changed from %s to %s", mc.Short(was), mc.Short(string(now)))
			}
		}
	}
	for _, o := range outs {
		if was, now, changed := retained.Add(o); changed {
			t.Fail("the result of an earlier encoding changed from %s to %s", mc.Short(was), mc.Short(string(now)))
		}
		got, dups, perr := parse(o)
		if perr != nil || dups {
			t.Fail("malformed JSON %s", mc.Short(string(o)))
		}
		if d := denotes(root, got, "$"); d != "" {
			t.Fail("%s in %s", d, mc.Short(string(o)))
		}
	}
	// The text decodes, and encodes to the same document again.
	var back event.Event
	if err := json.Unmarshal(out, &back); err != nil {
		t.Fail("own output refused: %v", err)
	}
	again, err := json.Marshal(&back)
	if err != nil {
		t.Fail("second encoding failed: %v", err)
	}
	if !bytes.Equal(again, out) {
		a, _, _ := parse(out)
		b, _, _ := parse(again)
		if d := diff(a, b, "$"); d != "" {
			t.Fail("%s: %s decoded and encoded again is %s", d, out, again)
		}
	}
	// Events that are changed in place are encoded as they are then.
	for k, ev := range []*event.Event{e, &back} {
		m := root.Clone()
		if k == 1 {
			m = model.Snapshot(ev)
		}
		for round := int64(7); round < 9; round++ {
			if !model.Tweak(ev, m, round) {
				t.Fail("two fields of the event share a value: after changing each field in place it is %s", model.Snapshot(ev).Canon())
			}
			text, err := json.Marshal(ev)
			if err != nil {
				t.Fail("changed in place to %s: encoding failed: %v", m.Canon(), err)
			}
			got, _, perr := parse(text)
			if perr != nil {
				t.Fail("malformed JSON %s", mc.Short(string(text)))
			}
			if d := denotes(m, got, "$"); d != "" {
				t.Fail("changed in place to %s: %s in %s", m.Canon(), d, mc.Short(string(text)))
			}
		}
	}
	t.Nontrivial(1)
	t.Outcome(string(out))
}

// denotes says how the JSON document differs from what the value denotes.
func denotes(v *model.V, got interface{}, path string) string {
	bad := func() string { return fmt.Sprintf("%s: %s encoded as %#v", path, v.Canon(), got) }
	switch v.K {
	case model.Null:
		if got != nil {
			return bad()
		}
	case model.Bool:
		if got != v.B {
			return bad()
		}
	case model.Int, model.Uint:
		n, ok := got.(json.Number)
		want := strconv.FormatInt(v.I, 10)
		if v.K == model.Uint {
			want = strconv.FormatUint(v.U, 10)
		}
		if !ok || !numEqual(json.Number(want), n) {
			return bad()
		}
	case model.Float:
		n, ok := got.(json.Number)
		if !ok {
			return bad()
		}
		f, err := strconv.ParseFloat(n.String(), 64)
		if err != nil || f != v.F {
			return bad()
		}
	case model.String:
		s, ok := got.(string)
		if !ok || s != v.S && utf8.ValidString(v.S) {
			return bad()
		}
	case model.Time:
		s, ok := got.(string)
		if !ok {
			return bad()
		}
		ts, err := time.Parse(time.RFC3339Nano, s)
		if err != nil || !strings.HasSuffix(s, "Z") || !ts.Equal(time.Unix(0, v.I)) {
			return bad()
		}
	case model.Array:
		a, ok := got.([]interface{})
		if !ok || len(a) != len(v.A) {
			return bad()
		}
		for i := range a {
			if d := denotes(v.A[i], a[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case model.Object:
		o, ok := got.(map[string]interface{})
		if !ok || len(o) != len(v.O) {
			return bad()
		}
		for k, e := range v.O {
			f, ok := o[k]
			if !ok {
				return fmt.Sprintf("%s: member %q lost", path, k)
			}
			if d := denotes(e, f, path+"."+k); d != "" {
				return d
			}
		}
	}
	return ""
}

func numbers() []string {
	var out []string
	for k := 0; k <= 70; k++ {
		p := new(big.Int).Lsh(big.NewInt(1), uint(k))
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(p, big.NewInt(d))
			out = append(out, x.String(), "-"+strings.TrimPrefix(x.String(), "-"))
			out = append(out, x.String()+".0", x.String()+".5", "-"+strings.TrimPrefix(x.String(), "-")+".5", x.String()+"e0", x.String()+"e1", x.String()+"e-1")
		}
	}
	p := big.NewInt(1)
	for k := 0; k <= 40; k++ {
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(p, big.NewInt(d))
			out = append(out, x.String(), "-"+strings.TrimPrefix(x.String(), "-"))
		}
		p = new(big.Int).Mul(p, big.NewInt(10))
	}
	for k := -345; k <= 320; k++ {
		for _, m := range []string{"1", "9", "1.5", "-1", "4.9406564584124654", "1.7976931348623157", "2.2250738585072014", "123456789012345678", "0.1"} {
			out = append(out, fmt.Sprintf("%se%d", m, k), fmt.Sprintf("%sE%+d", m, k))
		}
	}
	for i := 1; i <= 40; i++ {
		out = append(out, "0."+strings.Repeat("0", i)+"1", "0."+strings.Repeat("3", i), strings.Repeat("7", i), "-"+strings.Repeat("8", i), "1"+strings.Repeat("0", i), "0e"+strconv.Itoa(i))
	}
	return out
}

func strs(alphabet []string, max int) []string {
	out := []string{""}
	lo := 0
	for n := 1; n <= max; n++ {
		hi := len(out)
		for _, p := range out[lo:hi] {
			for _, c := range alphabet {
				out = append(out, p+c)
			}
		}
		lo = hi
	}
	return out
}

// used decodes several texts into one event.
func used(t *mc.T, texts ...string) {
	var e event.Event
	type got struct {
		v    *event.Value
		snap *model.V
	}
	var held []got
	for i, text := range texts {
		t.At(func() string { return fmt.Sprintf("one event decoded from %q, in turn: number %d", texts, i+1) })
		t.Eval(1)
		var err error
		if i%2 == 0 {
			err = json.Unmarshal([]byte(text), &e)
		} else {
			err = e.UnmarshalJSON([]byte(text))
		}
		if err != nil {
			t.Fail("valid JSON was refused: %v", err)
		}
		// json.Unmarshal may treat a null as no document at all.
		if text != "null" {
			out, err := json.Marshal(&e)
			if err != nil {
				t.Fail("encoding failed: %v", err)
			}
			want, _, _ := parse([]byte(text))
			back, _, perr := parse(out)
			if perr != nil {
				t.Fail("encoding yields malformed JSON %s", mc.Short(string(out)))
			}
			if d := diff(want, back, "$"); d != "" {
				t.Fail("%s (re-encoded: %s)", d, mc.Short(string(out)))
			}
		}
		for _, h := range held {
			if !model.Equal(model.From(h.v), h.snap) {
				t.Fail("a value fetched from the event before is %s now, it was %s", model.From(h.v).Canon(), h.snap.Canon())
			}
		}
		for _, k := range []string{".", "a", "d", "a.b"} {
			if v := e.Get(k); v != nil {
				held = append(held, got{v, model.From(v)})
			}
		}
	}
	t.Nontrivial(1)
	t.Outcome(fmt.Sprint("used ", texts))
}

func main() {
	spec := &model.TreeSpec{Leaves: []*model.V{model.I(1), model.S("x"), model.N(), model.B(true), model.F(1.5), model.T(1), model.U(math.MaxUint64)}, Names: []string{"a", "b.c", ""}}
	specAPI := &model.TreeSpec{Leaves: spec.Leaves, Names: []string{"a", "b.c", "d"}}
	mc.Main(&mc.Check{
		ID: "C04", Level: "exploration",
		Rule: "every JSON token sequence, number literal and string literal up to the stated lengths, every document tree and API event up to the stated size, every code point; a case is non-trivial when the text is a valid object (or an API event was encoded) and the whole document was compared",
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"tokens": pick(tier, 6, 7), "number_chars": pick(tier, 6, 7), "string_chars": pick(tier, 5, 6), "tree_nodes": pick(tier, 5, 6), "nesting": pick(tier, 200, 1200)}
		},
		Assumptions: []string{"encoding/json's tokenizer decides which texts are JSON and splits them into tokens"},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			batch := func(name string, texts []string, size int, f func(t *mc.T, s string)) bool {
				for i := 0; i < len(texts); i += size {
					end := i + size
					if end > len(texts) {
						end = len(texts)
					}
					part := texts[i:end]
					if !yield(name+" "+mc.Short(part[0]), func(t *mc.T) {
						for _, s := range part {
							f(t, s)
						}
						t.Sample(func() string { return name + ": " + mc.Short(part[len(part)/2]) })
					}) {
						return false
					}
				}
				return true
			}
			wraps := []string{"%s", `{"a":%s}`, `{"a":{"b":%s}}`, `{"a":[%s]}`, `{"a":[0,%s,{"b":[%s]}],"c":%s}`}
			wrapped := func(t *mc.T, s string) {
				for _, w := range wraps {
					decode(t, strings.ReplaceAll(w, "%s", s))
				}
			}
			if !batch("number", numbers(), 64, wrapped) {
				return
			}
			if !batch("number chars", strs([]string{"0", "1", "9", "-", "+", ".", "e"}, pick(tier, 6, 7)), 2000, func(t *mc.T, s string) {
				decode(t, `{"a":`+s+`}`)
				decode(t, `{"a":[`+s+`]}`)
			}) {
				return
			}
			if !batch("string chars", strs([]string{"a", `"`, `\`, "u", "0", "d", "8", "/", "n"}, pick(tier, 5, 6)), 1000, func(t *mc.T, s string) {
				decode(t, `{"a":"`+s+`"}`)
				decode(t, `{"`+s+`":1}`)
				decode(t, `{"a":{"`+s+`":"`+s+`"}}`)
			}) {
				return
			}
			// A used event: the next document takes the place of the previous one,
			// and what was fetched from the event before stays.
			docs := []string{`{}`, `null`, `{"a":1}`, `{"a":null}`, `{"a":{"b":{"c":1}},"d":[{"e":2},"x"]}`, `{"a":{"b":2},"d":[]}`, `{"d":[{"e":3},{"f":4},5]}`, `{"a":{"b":{"c":18446744073709551615}}}`, `{"a":{"x":1}}`, `{"a":{"y":2},"b":[1]}`, `{"a":[1,2,3]}`, `{"a":[{"x":1}]}`, `{"b":"s"}`}
			for _, first := range docs {
				first := first
				if !yield("used event "+first, func(t *mc.T) {
					for _, second := range docs {
						for _, third := range docs {
							used(t, first, second, third)
						}
					}
				}) {
					return
				}
			}
			// Escapes \uXXXX, all of them, alone and in pairs at the surrogate edges.
			for hi := 0; hi < 256; hi++ {
				hi := hi
				if !yield(fmt.Sprintf("escapes %02x", hi), func(t *mc.T) {
					for lo := 0; lo < 256; lo++ {
						s := fmt.Sprintf(`\u%02x%02X`, hi, lo)
						decode(t, `{"a":"`+s+`"}`)
						if hi >= 0xd8 && hi <= 0xdf {
							for _, o := range []string{`\ud800`, `\udbff`, `\udc00`, `\udfff`, `\u0041`, "x"} {
								decode(t, `{"a":"`+s+o+`"}`)
								decode(t, `{"a":"`+o+s+`","`+s+o+`":1}`)
							}
						}
					}
				}) {
					return
				}
			}
			// All code points, decoded raw and encoded from the API.
			for base := 0; base <= utf8.MaxRune; base += 0x800 {
				base := base
				if !yield(fmt.Sprintf("code points %x", base), func(t *mc.T) {
					for c := base; c < base+0x800; c++ {
						if c >= 0xd800 && c <= 0xdfff || c > utf8.MaxRune {
							continue
						}
						s := string(rune(c))
						encode(t, model.KV("k", model.S("a"+s+"b")))
						if c != '\\' {
							encode(t, model.KV(s, model.KV(s, model.S(s))))
						}
						if c >= 0x20 && c != '"' && c != '\\' {
							decode(t, `{"`+s+`":"`+s+`"}`)
						}
					}
				}) {
					return
				}
			}
			// Raw bytes in the text.
			var raw []string
			for b := 0; b < 256; b++ {
				s := string([]byte{byte(b)})
				raw = append(raw, s, `{"a":"`+s+`"}`, `{"a`+s+`":1}`, `{"a":`+s+`1}`, `{"a":1`+s+`}`, `{"a":1}`+s, s+`{"a":1}`, `{"a":"`+s+s+`"}`, `{`+s+`"a":1}`, `{"a"`+s+`:1}`, `{"a":1,`+s+`"b":2}`, `{"a":[`+s+`]}`, `{"a":[1`+s+`,2]}`)
			}
			raw = append(raw, "", " ", "null", " null ", "nul", "nulll", "\ufeff{}", "{}{}", "{} ", "{},", "[]", "[{}]", `"a"`, "true", "1", `{"a":1}}`, `{"a":1`, `{"a"`, `{"a":`, `{"a":}`, `{,}`, `{"a":1,}`, `{"a":[1,]}`, `{'a':1}`, `{a:1}`, "{\"a\":1}\x00", `{"a":NaN}`, `{"a":Infinity}`, `{"a":-Infinity}`, `{"a":undefined}`, `{"a":0x10}`, `{"a":01}`, `{"a":.5}`, `{"a":5.}`, `{"a":+1}`, `{"a":1_0}`)
			if !batch("raw", raw, 64, decode) {
				return
			}
			// Nesting.
			for _, kind := range []string{"[", "{", "[{"} {
				for _, d := range model.Sizes(pick(tier, 200, 1200), pick(tier, 4100, 9000)) {
					if d > 200 && d < 1200 && d%9 != 0 {
						continue
					}
					kind, d := kind, d
					if !yield(fmt.Sprintf("nesting %s %d", kind, d), func(t *mc.T) {
						for _, leaf := range []string{"", "1", "null", `"x"`} {
							open, close := "", ""
							var v *model.V
							switch leaf {
							case "1":
								v = model.I(1)
							case "null":
								v = model.N()
							case `"x"`:
								v = model.S("x")
							}
							for i := d; i >= 1; i-- {
								k := kind[i%len(kind)]
								if k == '[' {
									open, close = "["+open, close+"]"
									if v == nil {
										v = model.A()
									} else {
										v = model.A(v)
									}
								} else {
									if v == nil {
										open, close = "{"+open, close+"}"
										v = model.O(nil)
									} else {
										open, close = `{"a":`+open, close+"}"
										v = model.KV("a", v)
									}
								}
							}
							decode(t, `{"r":`+open+leaf+close+`}`)
							encode(t, model.KV("r", v))
						}
					}) {
						return
					}
				}
			}
			// Scalars through the API, alone and in containers.
			for _, v := range model.Scalars() {
				v := v
				if !yield("scalar "+v.Canon(), func(t *mc.T) {
					for _, w := range []*model.V{v, model.A(v), model.A(v, v), model.KV("x", v), model.KV("x", model.A(model.KV("y", v), v))} {
						encode(t, model.KV("a", w))
						encode(t, model.KV("a", w, "b", model.N()))
					}
				}) {
					return
				}
			}
			// Timestamps and integers through the API around every power of two,
			// every second boundary pattern and every number of trailing zeros.
			for k := 0; k < 64; k++ {
				k := k
				if !yield(fmt.Sprintf("powers %d", k), func(t *mc.T) {
					for d := int64(-2); d <= 2; d++ {
						x := int64(uint64(1)<<uint(k)) + d
						u := uint64(1)<<uint(k) + uint64(d)
						encode(t, model.KV("a", model.T(x), "b", model.T(-x), "c", model.I(x), "d", model.I(-x), "e", model.U(u), "f", model.F(float64(x)), "g", model.F(-float64(u)), "h", model.F(math.Float64frombits(u))))
						encode(t, model.KV("a", model.T(x), "h", model.F(math.Ldexp(1, -k)*float64(d))))
					}
					pow := int64(1)
					for z := 0; z <= 18; z++ {
						for _, m := range []int64{1, -1, 5, 123, 1257894000} {
							encode(t, model.KV("a", model.T(m*pow), "b", model.T(m*pow+int64(k))))
						}
						pow *= 10
					}
				}) {
					return
				}
			}
			// Trees.
			for n := 1; n <= pick(tier, 5, 6); n++ {
				for i, list := range [][]*model.V{specAPI.Objects(n), spec.Objects(n)} {
					i := i
					for lo := 0; lo < len(list); lo += 200 {
						hi := lo + 200
						if hi > len(list) {
							hi = len(list)
						}
						part := list[lo:hi]
						if !yield(fmt.Sprintf("trees %d %d %d", n, i, lo), func(t *mc.T) {
							for _, v := range part {
								if i == 0 {
									encode(t, v)
								} else {
									decode(t, render(v))
								}
							}
							t.Sample(func() string { return render(part[0]) })
						}) {
							return
						}
					}
				}
			}
			for _, name := range model.OddNames() {
				name := name
				if !yield("name "+mc.Short(name), func(t *mc.T) {
					for _, leaf := range []*model.V{model.I(1), model.S(name), model.N(), model.T(5), model.A(), model.O(nil)} {
						o := model.OddTree(name, model.KV(name, leaf, "l", model.A(leaf, model.KV(name, leaf))), func(k int) *model.V { return model.I(int64(k)) })
						enc := model.KV("n", o)
						for k, v := range o.O {
							if !strings.Contains(k, `\`) {
								enc.O[k] = v
							}
						}
						if utf8.ValidString(name) {
							for k := range o.O {
								if !utf8.ValidString(k) {
									delete(o.O, k)
									delete(enc.O, k)
								}
							}
							encode(t, enc)
							decode(t, render(o))
							decode(t, render(model.KV("n", o, "m", model.S(name))))
						}
					}
				}) {
					return
				}
			}
			for _, w := range model.WideSizes() {
				w := w
				if !yield(fmt.Sprint("wide ", w), func(t *mc.T) {
					for _, v := range model.Wide(w) {
						encode(t, v)
						decode(t, render(v))
					}
				}) {
					return
				}
			}
			// Token sequences.
			toks := []string{"{", "}", "[", "]", ",", ":", `"a"`, `"b.c"`, "1", "null", "true"}
			n := pick(tier, 6, 7)
			pre := strs(toks, 3)
			for _, p := range pre {
				p := p
				if !yield("tokens "+p, func(t *mc.T) {
					decode(t, p)
					if tokens(p, toks) < 3 {
						return
					}
					var rec func(s string, k int)
					rec = func(s string, k int) {
						for _, c := range toks {
							decode(t, s+c)
							if k > 1 && viable(s+c) {
								rec(s+c, k-1)
							}
						}
					}
					if viable(p) {
						rec(p, n-3)
					}
				}) {
					return
				}
			}
		},
	})
}

// tokens counts the tokens of s.
func tokens(s string, toks []string) int {
	n := 0
	for s != "" {
		for _, c := range toks {
			if strings.HasPrefix(s, c) {
				s = s[len(c):]
				n++
				break
			}
		}
	}
	return n
}

// viable says that the text is a prefix of some JSON document starting with an
// object; extensions of other prefixes are malformed for the same reason as the
// prefix extended by any token, which has been checked.
func viable(s string) bool {
	if !strings.HasPrefix(s, "{") {
		return false
	}
	dec := json.NewDecoder(strings.NewReader(s))
	for {
		_, err := dec.Token()
		if err == io.EOF || err == io.ErrUnexpectedEOF {
			return true
		}
		if err != nil {
			return strings.Contains(err.Error(), "unexpected end") || strings.Contains(err.Error(), "unexpected EOF")
		}
	}
}

// render writes a model tree as JSON text (independent of the library).
func render(v *model.V) string {
	switch v.K {
	case model.Null:
		return "null"
	case model.Bool:
		return strconv.FormatBool(v.B)
	case model.Int:
		return strconv.FormatInt(v.I, 10)
	case model.Uint:
		return strconv.FormatUint(v.U, 10)
	case model.Float:
		return strconv.FormatFloat(v.F, 'g', -1, 64)
	case model.String:
		b, _ := json.Marshal(v.S)
		return string(b)
	case model.Time:
		return `"` + time.Unix(0, v.I).UTC().Format(time.RFC3339Nano) + `"`
	case model.Array:
		var p []string
		for _, e := range v.A {
			p = append(p, render(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	var p []string
	for k, e := range v.O {
		b, _ := json.Marshal(k)
		p = append(p, string(b)+":"+render(e))
	}
	return "{" + strings.Join(p, ",") + "}"
}
