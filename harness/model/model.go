// Package model holds the reference data model: plain trees with plain-map
// semantics, independent of the code under test, and the domains that the
// checks enumerate.
package model

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

// Kind of a model value.
type Kind byte

const (
	Null Kind = iota
	Array
	Bool
	Float
	Int
	Object
	String
	Time
	Uint
	Nil // a nil pointer: no value at all
	Bad // a value the event type system does not know
)

// V is a model value.
type V struct {
	K Kind
	I int64 // Int, Time
	U uint64
	F float64
	S string
	B bool
	A []*V
	O map[string]*V
}

func N() *V          { return &V{K: Null} }
func NilV() *V       { return &V{K: Nil} }
func B(b bool) *V    { return &V{K: Bool, B: b} }
func F(f float64) *V { return &V{K: Float, F: f} }
func I(i int64) *V   { return &V{K: Int, I: i} }
func U(u uint64) *V  { return &V{K: Uint, U: u} }
func S(s string) *V  { return &V{K: String, S: s} }
func T(n int64) *V   { return &V{K: Time, I: n} }
func A(v ...*V) *V   { return &V{K: Array, A: v} }
func O(m map[string]*V) *V {
	if m == nil {
		m = map[string]*V{}
	}
	return &V{K: Object, O: m}
}

// KV builds an object from alternating names and values.
func KV(kv ...interface{}) *V {
	o := O(nil)
	for i := 0; i < len(kv); i += 2 {
		o.O[kv[i].(string)] = kv[i+1].(*V)
	}
	return o
}

// Clone copies deeply.
func (v *V) Clone() *V {
	if v == nil {
		return nil
	}
	c := *v
	if v.A != nil {
		c.A = make([]*V, len(v.A))
		for i := range v.A {
			c.A[i] = v.A[i].Clone()
		}
	}
	if v.O != nil {
		c.O = make(map[string]*V, len(v.O))
		for k, e := range v.O {
			c.O[k] = e.Clone()
		}
	}
	return &c
}

// Canon is a canonical, injective rendering.
func (v *V) Canon() string {
	var b strings.Builder
	v.canon(&b)
	return b.String()
}

func (v *V) canon(b *strings.Builder) {
	if v == nil {
		b.WriteString("-")
		return
	}
	switch v.K {
	case Null:
		b.WriteString("null")
	case Nil:
		b.WriteString("nil")
	case Bad:
		b.WriteString("BAD(" + v.S + ")")
	case Bool:
		fmt.Fprintf(b, "%v", v.B)
	case Int:
		b.WriteString("i")
		b.WriteString(strconv.FormatInt(v.I, 10))
	case Uint:
		b.WriteString("u")
		b.WriteString(strconv.FormatUint(v.U, 10))
	case Time:
		b.WriteString("t")
		b.WriteString(strconv.FormatInt(v.I, 10))
	case Float:
		if v.F != v.F {
			b.WriteString("fNaN")
			return
		}
		b.WriteString("f" + strconv.FormatFloat(v.F, 'g', -1, 64))
		if v.F == 0 && math.Signbit(v.F) {
			b.WriteString("(neg)")
		}
	case String:
		b.WriteString(strconv.Quote(v.S))
	case Array:
		b.WriteByte('[')
		for i, e := range v.A {
			if i > 0 {
				b.WriteByte(',')
			}
			e.canon(b)
		}
		b.WriteByte(']')
	case Object:
		names := make([]string, 0, len(v.O))
		for k := range v.O {
			names = append(names, k)
		}
		sort.Strings(names)
		b.WriteByte('{')
		for i, k := range names {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			v.O[k].canon(b)
		}
		b.WriteByte('}')
	}
}

// Equal compares structurally; floats by bits, all NaNs equal.
func Equal(a, b *V) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.K != b.K {
		return false
	}
	switch a.K {
	case Null, Nil:
		return true
	case Bool:
		return a.B == b.B
	case Int, Time:
		return a.I == b.I
	case Uint:
		return a.U == b.U
	case Float:
		return math.Float64bits(a.F) == math.Float64bits(b.F) || a.F != a.F && b.F != b.F
	case String, Bad:
		return a.S == b.S
	case Array:
		if len(a.A) != len(b.A) {
			return false
		}
		for i := range a.A {
			if !Equal(a.A[i], b.A[i]) {
				return false
			}
		}
		return true
	case Object:
		if len(a.O) != len(b.O) {
			return false
		}
		for k, e := range a.O {
			f, ok := b.O[k]
			if !ok || !Equal(e, f) {
				return false
			}
		}
		return true
	}
	return false
}

// MaxDepth bounds the walk over real values so that a cyclic value is reported
// instead of overflowing the stack.
const MaxDepth = 20000

// From reads a real value. It only looks at exported fields.
func From(v *event.Value) *V { return from(v, 0) }

func from(v *event.Value, d int) *V {
	if v == nil {
		return NilV()
	}
	if d > MaxDepth {
		panic("value nests deeper than " + strconv.Itoa(MaxDepth) + " levels (cyclic?)")
	}
	switch v.Type {
	case event.NullType:
		return N()
	case event.ArrayType:
		a := A()
		for _, e := range v.Array {
			a.A = append(a.A, from(e, d+1))
		}
		return a
	case event.BoolType:
		return B(v.Bool)
	case event.FloatType:
		return F(v.Float)
	case event.IntegerType:
		return I(v.Integer)
	case event.ObjectType:
		o := O(nil)
		for k, e := range v.Object {
			o.O[k] = from(e, d+1)
		}
		return o
	case event.StringType:
		return S(v.String)
	case event.TimestampType:
		return T(v.Timestamp.UnixNanos)
	case event.UnsignedIntegerType:
		return U(v.UnsignedInteger)
	}
	return &V{K: Bad, S: v.Type.String()}
}

// Real builds a fresh real value with the exported constructors.
func (v *V) Real() *event.Value {
	if v == nil {
		return nil
	}
	switch v.K {
	case Nil:
		return nil
	case Null:
		return &event.Value{Type: event.NullType}
	case Array:
		a := make([]*event.Value, 0, len(v.A))
		for _, e := range v.A {
			a = append(a, e.Real())
		}
		return event.Array(a...)
	case Bool:
		return event.Bool(v.B)
	case Float:
		return event.Float(v.F)
	case Int:
		return event.Integer(v.I)
	case Object:
		m := make(map[string]*event.Value, len(v.O))
		for k, e := range v.O {
			m[k] = e.Real()
		}
		return event.Object(m)
	case String:
		return event.String(v.S)
	case Time:
		return event.Timestamp(v.I)
	case Uint:
		return event.UnsignedInteger(v.U)
	}
	panic("no real value for kind " + strconv.Itoa(int(v.K)))
}

// BuildShared is Build with one Value for all equal scalars. It is nil if no
// scalar is there twice.
func BuildShared(root *V) *event.Event {
	seen := map[string]*event.Value{}
	twice := false
	var real func(v *V) *event.Value
	real = func(v *V) *event.Value {
		switch v.K {
		case Nil:
			return nil
		case Array:
			a := make([]*event.Value, 0, len(v.A))
			for _, e := range v.A {
				a = append(a, real(e))
			}
			return event.Array(a...)
		case Object:
			m := make(map[string]*event.Value, len(v.O))
			for k, e := range v.O {
				m[k] = real(e)
			}
			return event.Object(m)
		}
		c := v.Canon()
		if seen[c] != nil {
			twice = true
		} else {
			seen[c] = v.Real()
		}
		return seen[c]
	}
	e := event.New()
	for k, m := range root.O {
		if m.K == Nil {
			continue
		}
		if _, err := e.Put(Escape(k), real(m)); err != nil {
			panic("cannot build event: " + err.Error())
		}
	}
	if !twice {
		return nil
	}
	return e
}

// Snapshot reads a whole event. An empty event reads as an empty object.
// Fields holding no value (nil pointers) are not fields.
func Snapshot(e *event.Event) *V {
	r := e.Get(".")
	if r == nil {
		return O(nil)
	}
	return DropNil(From(r))
}

// DropNil removes object members that hold no value.
func DropNil(v *V) *V {
	for k, e := range v.O {
		if e.K == Nil {
			delete(v.O, k)
			continue
		}
		DropNil(e)
	}
	for _, e := range v.A {
		DropNil(e)
	}
	return v
}

// Escape spells a field name as a key (reference implementation).
func Escape(name string) string {
	return strings.ReplaceAll(name, ".", `\.`)
}

// Key spells a path as a key.
func Key(path ...string) string {
	e := make([]string, len(path))
	for i, p := range path {
		e[i] = Escape(p)
	}
	return strings.Join(e, ".")
}

// Path reads a key: the reference tokenizer. A dot preceded by a backslash is
// part of the name, backslashes are never part of a name, empty elements are
// ignored.
func Path(key string) []string {
	var path []string
	var cur []byte
	prev := byte(0)
	for i := 0; i < len(key); i++ {
		c := key[i]
		switch {
		case c == '\\':
		case c == '.' && prev != '\\':
			if len(cur) > 0 {
				path = append(path, string(cur))
			}
			cur = nil
		default:
			cur = append(cur, c)
		}
		prev = c
	}
	if len(cur) > 0 {
		path = append(path, string(cur))
	}
	return path
}

// StrayBackslash reports whether the key has a backslash that does not escape a
// dot; the meaning of such a backslash is not specified.
func StrayBackslash(key string) bool {
	for i := 0; i < len(key); i++ {
		if key[i] == '\\' && (i+1 == len(key) || key[i+1] != '.') {
			return true
		}
	}
	return false
}

// Err is the class of a store error.
type Err int

const (
	OK Err = iota
	EmptyKey
	Exists
	NotObject
)

func (e Err) String() string {
	return [...]string{"ok", "empty-key", "key-exists", "parent-not-object"}[e]
}

// Tree is the reference event: a plain nested map.
type Tree struct{ Root *V }

// NewTree returns an empty tree.
func NewTree() *Tree { return &Tree{Root: O(nil)} }

// Get returns the value at path or nil. The empty path is the root.
func (t *Tree) Get(path []string) *V {
	v := t.Root
	for _, p := range path {
		if v.K != Object {
			return nil
		}
		n, ok := v.O[p]
		if !ok || n.K == Nil {
			return nil
		}
		v = n
	}
	return v
}

// Put stores val (not copied) at path.
func (t *Tree) Put(path []string, val *V, overwrite bool) (old *V, err Err) {
	if len(path) == 0 {
		return nil, EmptyKey
	}
	if val == nil || val.K == Nil {
		return nil, OK
	}
	if cur := t.Get(path); cur != nil && !overwrite {
		return cur, Exists
	}
	// Check first, then create.
	v := t.Root
	for _, p := range path[:len(path)-1] {
		n, ok := v.O[p]
		if !ok || n.K == Nil {
			break
		}
		if n.K != Object {
			return nil, NotObject
		}
		v = n
	}
	v = t.Root
	for _, p := range path[:len(path)-1] {
		n, ok := v.O[p]
		if !ok || n.K == Nil {
			n = O(nil)
			v.O[p] = n
		}
		v = n
	}
	last := path[len(path)-1]
	if o, ok := v.O[last]; ok && o.K != Nil {
		old = o
	}
	v.O[last] = val
	return old, OK
}

// Delete removes the value at path.
func (t *Tree) Delete(path []string) *V {
	if len(path) == 0 {
		return nil
	}
	parent := t.Get(path[:len(path)-1])
	if parent == nil || parent.K != Object {
		return nil
	}
	last := path[len(path)-1]
	v, ok := parent.O[last]
	if !ok || v.K == Nil {
		return nil
	}
	delete(parent.O, last)
	return v
}

// Match compares a model value with a real one without copying. Object members
// that are nil pointers count as absent.
func Match(v *V, r *event.Value) bool { return match(v, r, 0) }

func match(v *V, r *event.Value, d int) bool {
	if v == nil || v.K == Nil {
		return r == nil
	}
	if r == nil || d > MaxDepth {
		return false
	}
	switch v.K {
	case Null:
		return r.Type == event.NullType
	case Bool:
		return r.Type == event.BoolType && r.Bool == v.B
	case Int:
		return r.Type == event.IntegerType && r.Integer == v.I
	case Uint:
		return r.Type == event.UnsignedIntegerType && r.UnsignedInteger == v.U
	case Time:
		return r.Type == event.TimestampType && r.Timestamp.UnixNanos == v.I
	case Float:
		return r.Type == event.FloatType && (math.Float64bits(r.Float) == math.Float64bits(v.F) || r.Float != r.Float && v.F != v.F)
	case String:
		return r.Type == event.StringType && r.String == v.S
	case Array:
		if r.Type != event.ArrayType || len(r.Array) != len(v.A) {
			return false
		}
		for i := range v.A {
			if !match(v.A[i], r.Array[i], d+1) {
				return false
			}
		}
		return true
	case Object:
		if r.Type != event.ObjectType {
			return false
		}
		n := 0
		for k, e := range v.O {
			if e.K == Nil {
				if r.Object[k] != nil {
					return false
				}
				continue
			}
			if !match(e, r.Object[k], d+1) {
				return false
			}
			n++
		}
		if n == len(r.Object) {
			return true
		}
		m := 0
		for _, e := range r.Object {
			if e != nil {
				m++
			}
		}
		return n == m
	}
	return false
}

// MatchEvent compares the whole event with a model root object.
func MatchEvent(root *V, e *event.Event) bool {
	r := e.Get(".")
	if r == nil {
		for _, m := range root.O {
			if m.K != Nil {
				return false
			}
		}
		return true
	}
	return Match(root, r)
}

// Build makes an event holding the members of root, using only Put with
// escaped names. Names must be non-empty and free of backslashes.
func Build(root *V) *event.Event {
	e := event.New()
	for k, m := range root.O {
		if m.K == Nil {
			continue
		}
		if _, err := e.Put(Escape(k), m.Real()); err != nil {
			panic("cannot build event: " + err.Error())
		}
	}
	return e
}
