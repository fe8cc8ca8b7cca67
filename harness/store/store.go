// Package store drives an event.Event and the reference tree side by side.
package store

import (
	"errors"
	"fmt"

	"github.com/andrewkroh/go-sawmill/pkg/event"

	"verif/mc"
	"verif/model"
)

// Kind of an operation.
type Kind byte

const (
	Put Kind = iota
	TryPut
	Delete
	Get
	Move // v := Get(K); Delete(K); Put(K2, v)
)

// Op is one call.
type Op struct {
	K    Kind
	Key  string
	Key2 string
	Val  *model.V
	path []string
	pat2 []string
}

func (o Op) String() string {
	switch o.K {
	case Put:
		return fmt.Sprintf("Put(%s, %s)", mc.Short(o.Key), short(o.Val))
	case TryPut:
		return fmt.Sprintf("TryPut(%s, %s)", mc.Short(o.Key), short(o.Val))
	case Delete:
		return fmt.Sprintf("Delete(%s)", mc.Short(o.Key))
	case Get:
		return fmt.Sprintf("Get(%s)", mc.Short(o.Key))
	}
	return fmt.Sprintf("Move(%s -> %s)", mc.Short(o.Key), mc.Short(o.Key2))
}

func short(v *model.V) string {
	s := v.Canon()
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// New prepares an op.
func New(k Kind, key string, val *model.V) Op {
	return Op{K: k, Key: key, Val: val, path: model.Path(key)}
}

// NewMove prepares a move.
func NewMove(from, to string) Op {
	return Op{K: Move, Key: from, Key2: to, path: model.Path(from), pat2: model.Path(to)}
}

// All builds the full operation alphabet.
func All(keys []string, vals []*model.V) []Op {
	var ops []Op
	for _, k := range keys {
		for _, v := range vals {
			ops = append(ops, New(Put, k, v), New(TryPut, k, v))
		}
		ops = append(ops, New(Delete, k, nil))
	}
	return ops
}

// Class maps a store error to its class.
func Class(err error) (model.Err, error) {
	if err == nil {
		return model.OK, nil
	}
	var found []model.Err
	if errors.Is(err, event.ErrEmptyKey) {
		found = append(found, model.EmptyKey)
	}
	if errors.Is(err, event.ErrKeyExists) {
		found = append(found, model.Exists)
	}
	if errors.Is(err, event.ErrTargetKeyNotObject) {
		found = append(found, model.NotObject)
	}
	if len(found) != 1 {
		return 0, fmt.Errorf("error %q identifies %d of the three causes", err, len(found))
	}
	return found[0], nil
}

// Step applies one op to both sides and compares what it returned.
func Step(t *mc.T, e *event.Event, m *model.Tree, o Op) model.Err {
	t.Trans(1)
	switch o.K {
	case Put, TryPut:
		var got *event.Value
		var err error
		if o.K == Put {
			got, err = e.Put(o.Key, o.Val.Real())
		} else {
			got, err = e.TryPut(o.Key, o.Val.Real())
		}
		return put(t, m, o, o.path, o.Val.Clone(), got, err)
	case Delete:
		want := m.Delete(o.path)
		got := e.Delete(o.Key)
		if !model.Match(want, got) {
			t.Fail("%v returned %s, want %s", o, model.From(got).Canon(), want.Canon())
		}
	case Get:
		check(t, e, m, o.Key, o.path)
	case Move:
		got := e.Get(o.Key)
		want := m.Get(o.path)
		if len(o.path) == 0 || want == nil {
			check(t, e, m, o.Key, o.path)
			return model.OK
		}
		if !model.Match(want, got) {
			t.Fail("%v: Get returned %s, want %s", o, model.From(got).Canon(), want.Canon())
		}
		del := e.Delete(o.Key)
		m.Delete(o.path)
		if !model.Match(want, del) {
			t.Fail("%v: Delete returned %s, want %s", o, model.From(del).Canon(), want.Canon())
		}
		old, err := e.Put(o.Key2, got)
		return put(t, m, o, o.pat2, want, old, err)
	}
	return model.OK
}

func put(t *mc.T, m *model.Tree, o Op, path []string, val *model.V, got *event.Value, err error) model.Err {
	old, want := m.Put(path, val, o.K != TryPut)
	class, cerr := Class(err)
	if cerr != nil {
		t.Fail("%v: %v", o, cerr)
	}
	if class != want {
		t.Fail("%v gave %v (%v), want %v", o, class, err, want)
	}
	if old == nil {
		t.OutcomeN(uint64(want)*2 + uint64(o.K)*16)
	} else {
		t.OutcomeN(uint64(want)*2 + uint64(o.K)*16 + 1 + uint64(old.K)*64)
	}
	if want == model.OK || want == model.Exists {
		if !model.Match(old, got) {
			t.Fail("%v returned %s, want %s", o, model.From(got).Canon(), old.Canon())
		}
	}
	return want
}

func check(t *mc.T, e *event.Event, m *model.Tree, key string, path []string) {
	got := e.Get(key)
	want := m.Get(path)
	if len(path) == 0 {
		if !model.MatchEvent(m.Root, e) {
			t.Fail("Get(%s) returned %s, want the whole event %s", mc.Short(key), model.From(got).Canon(), m.Root.Canon())
		}
		return
	}
	if !model.Match(want, got) {
		t.Fail("Get(%s) returned %s, want %s", mc.Short(key), model.From(got).Canon(), want.Canon())
	}
}

// Probe is a key with its reference path.
type Probe struct {
	Key  string
	Path []string
}

// Probes prepares keys.
func Probes(keys []string) []Probe {
	var p []Probe
	for _, k := range keys {
		p = append(p, Probe{k, model.Path(k)})
	}
	return p
}

// Compare compares the whole event and every probe.
func Compare(t *mc.T, e *event.Event, m *model.Tree, probes []Probe) {
	if !model.MatchEvent(m.Root, e) {
		t.Fail("event is %s, want %s", model.Snapshot(e).Canon(), m.Root.Canon())
	}
	for i := range probes {
		check(t, e, m, probes[i].Key, probes[i].Path)
	}
}

// Ops renders a history.
func Ops(initial string, ops ...Op) func() string {
	return func() string {
		s := initial
		for _, o := range ops {
			s += "; " + o.String()
		}
		return s
	}
}

// Init is a way to make an initial event.
type Init struct {
	Name string
	Make func() *event.Event
	Root *model.V
}

// JSON makes an Init that decodes text.
func JSON(text string, root *model.V) Init {
	return Init{"json " + text, func() *event.Event {
		e := &event.Event{}
		if err := e.UnmarshalJSON([]byte(text)); err != nil {
			panic(err)
		}
		return e
	}, root}
}
