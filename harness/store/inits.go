package store

import (
	"github.com/golang/protobuf/proto"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"

	"verif/model"
)

// Inits lists initial states made in every way the library offers.
func Inits() []Init {
	kv, n, i, s, o, a := model.KV, model.N, model.I, model.S, model.O, model.A
	full := func() *model.V {
		return kv("a", kv("b", kv("c", i(1)), "x", n()), "b", s("x"), "a.b", i(2), "l", a(kv("b", i(3))))
	}
	pb := func(root *model.V) func() *event.Event {
		return func() *event.Event {
			data, err := proto.Marshal(protobuf.FromEvent(model.Build(root)))
			if err != nil {
				panic(err)
			}
			var w protobuf.MessageWrapper
			if err := proto.Unmarshal(data, &w); err != nil {
				panic(err)
			}
			return protobuf.ToLogEvent(w.GetLog())
		}
	}
	apiNil := func(make func() *event.Value) func() *event.Event {
		return func() *event.Event {
			e := event.New()
			if _, err := e.Put("a", make()); err != nil {
				panic(err)
			}
			return e
		}
	}
	return []Init{
		{"New()", event.New, o(nil)},
		{"zero Event", func() *event.Event { return &event.Event{} }, o(nil)},
		JSON(`{}`, o(nil)),
		JSON(`null`, o(nil)),
		JSON(`{"a":null}`, kv("a", n())),
		JSON(`{"a":{"b":null}}`, kv("a", kv("b", n()))),
		JSON(`{"a":{},"b":[]}`, kv("a", o(nil), "b", a())),
		JSON(`{"a":{"b":{"c":1},"x":null},"b":"x","a.b":2,"l":[{"b":3}]}`, full()),
		{"ToEvent", func() *event.Event {
			e, err := mapinterface.ToEvent(map[string]interface{}{
				"a": map[string]interface{}{"b": map[string]interface{}{"c": 1}, "x": nil}, "b": "x", "a.b": 2, "l": []interface{}{map[string]interface{}{"b": 3}}})
			if err != nil {
				panic(err)
			}
			return e
		}, full()},
		{"protobuf", pb(full()), full()},
		{"protobuf empty", pb(o(nil)), o(nil)},
		{"Put(a, Object(nil))", apiNil(func() *event.Value { return event.Object(nil) }), kv("a", o(nil))},
		{"Put(a, Object{b: nil})", apiNil(func() *event.Value { return event.Object(map[string]*event.Value{"b": nil}) }), kv("a", o(nil))},
		{"Put(a, Object{b: Object(nil)})", apiNil(func() *event.Value {
			return event.Object(map[string]*event.Value{"b": event.Object(nil)})
		}), kv("a", kv("b", o(nil)))},
		{"Put(a, NullValue)", apiNil(func() *event.Value { return event.NullValue }), kv("a", n())},
		{"Put(a, Array())", apiNil(func() *event.Value { return event.Array() }), kv("a", a())},
	}
}
