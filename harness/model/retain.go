package model

import (
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

// Scramble overwrites every value node reachable from v in place.
func Scramble(v *event.Value) {
	seen := map[*event.Value]bool{}
	var walk func(v *event.Value)
	walk = func(v *event.Value) {
		if v == nil || seen[v] || v.Type == event.NullType {
			return // nulls may be shared, having no content
		}
		seen[v] = true
		for _, e := range v.Array {
			walk(e)
		}
		for _, e := range v.Object {
			walk(e)
		}
		switch v.Type {
		case event.ObjectType:
			if v.Object != nil {
				for k := range v.Object {
					v.Object[k] = event.String("scrambled")
				}
				v.Object["scrambled"] = event.String("new member")
			}
		case event.ArrayType:
			for i := range v.Array {
				v.Array[i] = event.String("scrambled")
			}
			// Spare capacity, which another array may use.
			for i, full := len(v.Array), v.Array[:cap(v.Array)]; i < len(full); i++ {
				full[i] = event.String("scrambled")
			}
		}
		*v = *event.String("scrambled")
	}
	walk(v)
}

// ScrambleEvent changes everything an event holds, in place.
func ScrambleEvent(e *event.Event) { Scramble(e.Get(".")) }

// Scribble overwrites a buffer that was handed to a decoder.
func Scribble(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

// Retained are results of earlier calls, to be compared again later.
type Retained struct {
	n    int
	ring [4]struct {
		b    []byte
		want string
	}
}

// Add keeps a result and returns the first kept one that has changed since.
func (r *Retained) Add(b []byte) (was string, now []byte, changed bool) {
	for _, x := range r.ring {
		if string(x.b) != x.want {
			return x.want, x.b, true
		}
	}
	r.ring[r.n%len(r.ring)].b, r.ring[r.n%len(r.ring)].want = b, string(b)
	r.n++
	return
}

// Tweak changes every field of an event a little, in place and without
// replacing any value, as a caller that keeps working with it would, and the
// model in the same way. It returns false if the event is not then what the
// model is: two of its fields share a value.
func Tweak(e *event.Event, root *V, round int64) bool {
	for name, m := range root.O {
		if name == "" || strings.Contains(name, `\`) {
			continue // no key reaches it
		}
		if v := e.Get(Key(name)); v != nil {
			tweak(v, round)
			tweakV(m, round)
		}
	}
	return MatchEvent(root, e)
}

func tweak(v *event.Value, round int64) {
	if v == nil {
		return
	}
	switch v.Type {
	case event.ArrayType:
		for _, x := range v.Array {
			tweak(x, round)
		}
		v.Array = append(v.Array, event.Integer(round))
	case event.ObjectType:
		for _, x := range v.Object {
			tweak(x, round)
		}
		if v.Object == nil {
			v.Object = map[string]*event.Value{}
		}
		v.Object["tweaked"] = event.Integer(round)
	case event.BoolType:
		v.Bool = !v.Bool
	case event.FloatType:
		v.Float++
	case event.IntegerType:
		v.Integer++
	case event.UnsignedIntegerType:
		v.UnsignedInteger++
	case event.StringType:
		v.String += "Tw"
	case event.TimestampType:
		v.Timestamp.UnixNanos++
	}
}

func tweakV(v *V, round int64) {
	if v == nil {
		return
	}
	switch v.K {
	case Array:
		for _, x := range v.A {
			tweakV(x, round)
		}
		v.A = append(v.A, I(round))
	case Object:
		for _, x := range v.O {
			tweakV(x, round)
		}
		v.O["tweaked"] = I(round)
	case Bool:
		v.B = !v.B
	case Float:
		v.F++
	case Int, Time:
		v.I++
	case Uint:
		v.U++
	case String:
		v.S += "Tw"
	}
}
