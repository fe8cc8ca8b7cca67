// C07: any Go value converts to the documented event value or a typed error.
package main

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"os"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"

	"verif/mc"
	"verif/model"
)

func pick(tier string, q, th int) int {
	if tier == "thorough" {
		return th
	}
	return q
}

// sample is a Go value, held in a variable of type rv.Type(), and what it must
// convert to: a value or (want nil) an unsupported-type error.
type sample struct {
	name string
	rv   reflect.Value
	want *model.V
	// zero: the value is the zero value of its type (omitempty drops it).
	zero     bool
	ifaceNil bool
}

func mk(name string, v interface{}, want *model.V) sample {
	rv := reflect.ValueOf(v)
	s := sample{name: name, rv: rv, want: want, zero: rv.IsZero()}
	return s
}

// slot holds v in a variable of interface type typ.
func slot(name string, typ reflect.Type, v interface{}, want *model.V) sample {
	rv := reflect.New(typ).Elem()
	if v != nil {
		rv.Set(reflect.ValueOf(v))
	}
	return sample{name: name, rv: rv, want: want, zero: v == nil, ifaceNil: v == nil}
}

type (
	myBool   bool
	myInt    int32
	myUint   uint16
	myFloat  float32
	myString string
	mySlice  []int
	myMap    map[string]int
	myTime   time.Time
	myChan   chan int
	myFunc   func()
	valErr   struct{ Msg string }
	ptrErr   struct{ Msg string }
	sliceErr []string
	intErr   int
	stringer int
	ptrStr   struct{ A int }

	// Types whose kind is what counts, whatever else they can do.
	textBool    bool
	textInt     int64
	textUint    uint8
	textFloat   float64
	textString  string
	textSlice   []uint8
	textBytes   []byte
	textArray   [2]byte
	textMap     map[string]int
	textStruct  struct{ A int }
	jsonSlice   []int
	jsonStruct  struct{ B string }
	numString   string
	myByte      byte
	myRune      rune
	bytesOf     []myByte
	runes       []rune
	byteArray   [3]byte
	stringKeyed map[textString]textBytes
	sliceOfMy   []myString
	myAny       interface{}
	anyMap      map[string]interface{}
	anySlice    []interface{}
	myPtr       *int
	alias       = map[string]interface{}
	aliasNamed  map[string]myAny
	Generic     struct {
		Value interface{}
		Err   error
		Ptr   **int
	}
	nullish struct {
		String string
		Valid  bool
	}
	dupTagsLess struct {
		B []byte
		C [0]byte
		D struct{}
		E *struct{}
		F interface{ M() }
		G map[string]struct{}
		H []struct{ X, y int }
		I struct {
			J struct{ K []map[string]uint8 }
		}
	}
	empty   struct{}
	private struct{ a, b int }
	mixed   struct {
		A int
		b int
		C string
	}
	Inner  struct{ X int }
	embeds struct {
		Inner
		Y int
	}
	embedsPtr struct {
		*Inner
		Y int
	}
	Empty       struct{}
	embedsEmpty struct {
		Empty
		*Hollow
		Y int
	}
	Hollow     struct{ a int }
	Named      int
	Mapped     map[string]int
	embedsKind struct {
		Named
		Mapped
		Iface
		Y int
	}
	Iface    interface{ M() }
	shadowed struct {
		Outer
		X string
	}
	Outer struct {
		Inner
		X []int
	}
	hidden     struct{ Z int }
	embedsPriv struct{ hidden }
	embedsBoth struct {
		hidden
		Y int
	}
	list struct {
		V    int
		Next *list
	}
	tagged struct {
		A             int    `event:"alpha"`
		B             string `event:"-"`
		C             string `event:",omitempty"`
		D             *int   `event:"dd,omitempty"`
		E             int    `json:"other"`
		F             int    `event:""`
		G             int    `event:"dot.ted"`
		H             int    `event:"omitempty"`
		ÜmläutÑ       int
		LongCamelCase int
	}
	stringed struct {
		S  stringer      `event:"s,string"`
		P  *ptrStr       `event:"p,string"`
		I  fmt.Stringer  `event:"i,string"`
		T  time.Duration `event:"t,string"`
		N  net.IP        `event:"n,string"`
		SO stringer      `event:"so,string,omitempty"`
		OS stringer      `event:"os,omitempty,string"`
	}
	skipsUnsupported struct {
		A int
		c chan int
		D chan int  `event:"-"`
		E func()    `event:",omitempty"`
		F complex64 `event:"f,omitempty"`
	}
)

func (textBool) MarshalText() ([]byte, error)    { return []byte("text"), nil }
func (textInt) MarshalText() ([]byte, error)     { return []byte("text"), nil }
func (textUint) MarshalJSON() ([]byte, error)    { return []byte(`"json"`), nil }
func (textFloat) String() string                 { return "stringer" }
func (textString) String() string                { return "stringer" }
func (textString) MarshalText() ([]byte, error)  { return []byte("text"), nil }
func (textSlice) String() string                 { return "stringer" }
func (textBytes) MarshalText() ([]byte, error)   { return []byte("text"), nil }
func (textArray) MarshalText() ([]byte, error)   { return []byte("text"), nil }
func (textMap) MarshalJSON() ([]byte, error)     { return []byte(`"json"`), nil }
func (textStruct) MarshalText() ([]byte, error)  { return []byte("text"), nil }
func (textStruct) String() string                { return "stringer" }
func (*jsonSlice) MarshalJSON() ([]byte, error)  { return []byte(`"json"`), nil }
func (*jsonStruct) MarshalJSON() ([]byte, error) { return []byte(`"json"`), nil }
func (numString) Int64() (int64, error)          { return 7, nil }

func (e valErr) Error() string    { return "val:" + e.Msg }
func (e *ptrErr) Error() string   { return "ptr:" + e.Msg }
func (e sliceErr) Error() string  { return fmt.Sprintf("slice:%d", len(e)) }
func (e intErr) Error() string    { return fmt.Sprintf("int:%d", int(e)) }
func (s stringer) String() string { return fmt.Sprintf("#%d", int(s)) }
func (s *ptrStr) String() string  { return fmt.Sprintf("P%d", s.A) }

var (
	anyT      = reflect.TypeOf((*interface{})(nil)).Elem()
	errT      = reflect.TypeOf((*error)(nil)).Elem()
	stringerT = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
)

func bases() []sample {
	I, U, S, F := model.I, model.U, model.S, model.F
	ts := time.Unix(1257894000, 123456789)
	tsV := model.T(1257894000123456789)
	unsupported := (*model.V)(nil)
	one := 1
	ch := make(chan int)
	ss := []sample{
		mk("true", true, model.B(true)), mk("false", false, model.B(false)),
		mk("int", int(-5), I(-5)), mk("int8", int8(math.MinInt8), I(math.MinInt8)), mk("int16", int16(math.MinInt16), I(math.MinInt16)), mk("int32", int32(math.MinInt32), I(math.MinInt32)), mk("int64", int64(math.MinInt64), I(math.MinInt64)),
		mk("int max", int(math.MaxInt64), I(math.MaxInt64)), mk("int zero", 0, I(0)),
		mk("uint", uint(5), U(5)), mk("uint8", uint8(math.MaxUint8), U(math.MaxUint8)), mk("uint16", uint16(math.MaxUint16), U(math.MaxUint16)), mk("uint32", uint32(math.MaxUint32), U(math.MaxUint32)), mk("uint64", uint64(math.MaxUint64), U(math.MaxUint64)), mk("uintptr", uintptr(7), U(7)),
		mk("float32", float32(1.5), F(1.5)), mk("float32 0.1", float32(0.1), F(float64(float32(0.1)))), mk("float64", 0.1, F(0.1)), mk("NaN", math.NaN(), F(math.NaN())), mk("-Inf", math.Inf(-1), F(math.Inf(-1))),
		mk("string", "x", S("x")), mk("empty string", "", S("")), mk("json.Number", json.Number("12"), S("12")),
		mk("myBool", myBool(true), model.B(true)), mk("myInt", myInt(-3), I(-3)), mk("myUint", myUint(3), U(3)), mk("myFloat", myFloat(2.5), F(2.5)), mk("myString", myString("my"), S("my")), mk("Duration", time.Duration(5), I(5)),
		mk("bytes", []byte{1, 2}, model.A(U(1), U(2))), mk("mySlice", mySlice{1, 2}, model.A(I(1), I(2))), mk("nil slice", []int(nil), model.A()), mk("empty slice", []int{}, model.A()),
		mk("array", [2]string{"a", "b"}, model.A(S("a"), S("b"))), mk("array0", [0]int{}, model.A()),
		mk("strings", []string{"a", "b", "c"}, model.A(S("a"), S("b"), S("c"))), mk("anys", []interface{}{1, nil, "x", []interface{}{uint8(2)}}, model.A(I(1), model.N(), S("x"), model.A(U(2)))),
		mk("myMap", myMap{"a": 1, "b.c": 2, "": 3, `d\e`: 4}, model.KV("a", I(1), "b.c", I(2), "", I(3), `d\e`, I(4))), mk("nil map", map[string]int(nil), model.O(nil)), mk("empty map", map[string]int{}, model.O(nil)),
		mk("int keys", map[int]string{1: "a", -2: "b"}, model.KV("1", S("a"), "-2", S("b"))), mk("named keys", map[myString]uint8{"k": 1}, model.KV("k", U(1))), mk("uint8 keys", map[uint8]bool{200: true}, model.KV("200", model.B(true))), mk("map any", map[string]interface{}{"n": nil, "m": map[string]interface{}{"x.y": 1}}, model.KV("n", model.N(), "m", model.KV("x.y", I(1)))),
		mk("map str", map[string]string{"a": "b"}, model.KV("a", S("b"))),
		mk("time", ts, tsV), mk("time zone", ts.In(time.FixedZone("z", -3600)), tsV), mk("time min", time.Unix(0, math.MinInt64), model.T(math.MinInt64)), mk("time max", time.Unix(0, math.MaxInt64), model.T(math.MaxInt64)), mk("myTime", myTime(ts), tsV), mk("*time", &ts, tsV), mk("nil *time", (*time.Time)(nil), model.N()),
		mk("error", errors.New("boom"), S("boom")), mk("wrapped", fmt.Errorf("w: %w", io.EOF), S("w: EOF")), mk("valErr", valErr{"m"}, S("val:m")), mk("*valErr", &valErr{"m"}, S("val:m")), mk("*ptrErr", &ptrErr{"m"}, S("ptr:m")), mk("ptrErr value", ptrErr{"m"}, model.KV("msg", S("m"))), mk("sliceErr", sliceErr{"a"}, S("slice:1")), mk("intErr", intErr(4), S("int:4")), mk("nil *valErr", (*valErr)(nil), model.N()), mk("nil *ptrErr", (*ptrErr)(nil), model.N()),
		mk("stringer", stringer(4), I(4)), mk("*ptrStr", &ptrStr{4}, model.KV("a", I(4))),
		mk("RawMessage", json.RawMessage("[1]"), model.A(U('['), U('1'), U(']'))), mk("nil RawMessage", json.RawMessage(nil), model.A()), mk("nil bytes", []byte(nil), model.A()), mk("bytes text", []byte("text"), model.A(U('t'), U('e'), U('x'), U('t'))), mk("bytes invalid", []byte{0xff, 0, 0xfe}, model.A(U(255), U(0), U(254))),
		mk("IP", net.IPv4(1, 2, 3, 4).To4(), model.A(U(1), U(2), U(3), U(4))), mk("MAC", net.HardwareAddr{1, 2}, model.A(U(1), U(2))), mk("IPMask", net.IPMask{255, 0}, model.A(U(255), U(0))), mk("IPNet", net.IPNet{IP: net.IP{1, 2, 3, 4}, Mask: net.IPMask{255, 0, 0, 0}}, model.KV("ip", model.A(U(1), U(2), U(3), U(4)), "mask", model.A(U(255), U(0), U(0), U(0)))),
		mk("Header", http.Header{"A-b": {"x", "y"}, "C": nil}, model.KV("A-b", model.A(S("x"), S("y")), "C", model.A())), mk("Values", url.Values{"a": {"1"}}, model.KV("a", model.A(S("1")))),
		mk("Month", time.March, I(3)), mk("Weekday", time.Sunday, I(0)), mk("FileMode", os.FileMode(0o644), U(0o644)), mk("Kind", reflect.Int, U(2)), mk("Signal", syscall.SIGINT, I(2)), mk("Errno", syscall.ENOENT, S(syscall.ENOENT.Error())),
		mk("Addr", netip.MustParseAddr("1.2.3.4"), model.O(nil)), mk("big.Int", *big.NewInt(5), model.O(nil)), mk("*big.Int", big.NewInt(5), model.O(nil)), mk("Builder", strings.Builder{}, model.O(nil)), mk("*Buffer", bytes.NewBufferString("x"), model.O(nil)), mk("NullString", sql.NullString{String: "x", Valid: true}, model.KV("string", S("x"), "valid", model.B(true))), mk("NullTime", sql.NullTime{Time: ts}, model.KV("time", tsV, "valid", model.B(false))),
		mk("PathError", &os.PathError{Op: "open", Path: "p", Err: io.EOF}, S("open p: EOF")), mk("PathError value", os.PathError{Op: "open", Path: "p", Err: io.EOF}, model.KV("op", S("open"), "path", S("p"), "err", S("EOF"))), mk("joined error", fmt.Errorf(""), S("")),
		mk("textBool", textBool(true), model.B(true)), mk("textInt", textInt(5), I(5)), mk("textUint", textUint(5), U(5)), mk("textFloat", textFloat(1.5), F(1.5)), mk("textString", textString("raw"), S("raw")), mk("textSlice", textSlice{1, 2}, model.A(U(1), U(2))), mk("textBytes", textBytes("ab"), model.A(U('a'), U('b'))), mk("textArray", textArray{1, 2}, model.A(U(1), U(2))), mk("textMap", textMap{"a": 1}, model.KV("a", I(1))), mk("textStruct", textStruct{3}, model.KV("a", I(3))), mk("*textStruct", &textStruct{3}, model.KV("a", I(3))),
		mk("jsonSlice", jsonSlice{1}, model.A(I(1))), mk("*jsonSlice", &jsonSlice{1}, model.A(I(1))), mk("jsonStruct", jsonStruct{"b"}, model.KV("b", S("b"))), mk("*jsonStruct", &jsonStruct{"b"}, model.KV("b", S("b"))), mk("numString", numString("12"), S("12")),
		mk("json.Number float", json.Number("1.5"), S("1.5")), mk("json.Number bad", json.Number("x"), S("x")), mk("string number", "12", S("12")), mk("string bool", "true", S("true")), mk("string null", "null", S("null")), mk("string time", "2009-11-10T23:00:00Z", S("2009-11-10T23:00:00Z")), mk("string json", `{"a":1}`, S(`{"a":1}`)), mk("string invalid", "a\xff\x00", S("a\xff\x00")), mk("string spaces", " a ", S(" a ")),
		mk("myByte", myByte(7), U(7)), mk("myRune", myRune('x'), I('x')), mk("rune", 'é', I('é')), mk("bytesOf", bytesOf{7, 8}, model.A(U(7), U(8))), mk("runes", runes("ab"), model.A(I('a'), I('b'))), mk("[]rune", []rune("a"), model.A(I('a'))), mk("byteArray", byteArray{1, 2, 3}, model.A(U(1), U(2), U(3))), mk("*byteArray", &byteArray{1, 2, 3}, model.A(U(1), U(2), U(3))), mk("[16]byte", [16]byte{15: 1}, model.A(U(0), U(0), U(0), U(0), U(0), U(0), U(0), U(0), U(0), U(0), U(0), U(0), U(0), U(0), U(0), U(1))),
		mk("sliceOfMy", sliceOfMy{"a"}, model.A(S("a"))), mk("anyMap", anyMap{"a": 1, "b": nil}, model.KV("a", I(1), "b", model.N())), mk("nil anyMap", anyMap(nil), model.O(nil)), mk("anySlice", anySlice{1, nil, anyMap{}}, model.A(I(1), model.N(), model.O(nil))), mk("nil anySlice", []interface{}(nil), model.A()), mk("nil any map", map[string]interface{}(nil), model.O(nil)), mk("myPtr", myPtr(&one), I(1)), mk("alias", alias{"a": myByte(1)}, model.KV("a", U(1))), mk("aliasNamed", aliasNamed{"a": "x"}, model.KV("a", S("x"))),
		mk("bool keys", map[bool]int{true: 1, false: 0}, model.KV("true", I(1), "false", I(0))), mk("rune keys", map[rune]int{'a': 1}, model.KV("97", I(1))), mk("uint64 keys", map[uint64]int{math.MaxUint64: 1}, model.KV("18446744073709551615", I(1))), mk("string any of maps", map[string]map[string][]int{"a": {"b": {1}}, "c": nil}, model.KV("a", model.KV("b", model.A(I(1))), "c", model.O(nil))), mk("map any slices", map[string][]interface{}{"a": {nil, 1.5}}, model.KV("a", model.A(model.N(), F(1.5)))),
		mk("Generic", Generic{}, model.KV("value", model.N(), "err", model.N(), "ptr", model.N())), mk("Generic full", Generic{Value: Generic{Value: []byte{1}}, Err: io.EOF, Ptr: new(*int)}, model.KV("value", model.KV("value", model.A(U(1)), "err", model.N(), "ptr", model.N()), "err", S("EOF"), "ptr", model.N())), mk("nullish", nullish{"", false}, model.KV("string", S(""), "valid", model.B(false))),
		mk("kinds", dupTagsLess{}, model.KV("b", model.A(), "c", model.A(), "d", model.O(nil), "e", model.N(), "f", model.N(), "g", model.O(nil), "h", model.A(), "i", model.KV("j", model.KV("k", model.A())))), mk("kinds full", dupTagsLess{B: []byte{1}, E: &struct{}{}, G: map[string]struct{}{"x": {}}, H: []struct{ X, y int }{{1, 2}}}, model.KV("b", model.A(U(1)), "c", model.A(), "d", model.O(nil), "e", model.O(nil), "f", model.N(), "g", model.KV("x", model.O(nil)), "h", model.A(model.KV("x", I(1))), "i", model.KV("j", model.KV("k", model.A())))),
		mk("-0", math.Copysign(0, -1), F(math.Copysign(0, -1))), mk("denormal", math.SmallestNonzeroFloat64, F(math.SmallestNonzeroFloat64)), mk("2^53+1", int64(1<<53+1), I(1<<53+1)), mk("uint 2^63", uint64(1<<63), U(1<<63)), mk("uint16", uint16(0), U(0)), mk("float int", 3.0, F(3)),
		mk("epoch", time.Unix(0, 0), model.T(0)),
		mk("empty struct", empty{}, model.O(nil)), mk("private", private{1, 2}, model.O(nil)), mk("mixed", mixed{1, 2, "c"}, model.KV("a", I(1), "c", S("c"))),
		mk("embeds", embeds{Inner{1}, 2}, model.KV("inner", model.KV("x", I(1)), "y", I(2))), mk("embeds ptr", embedsPtr{&Inner{1}, 2}, model.KV("inner", model.KV("x", I(1)), "y", I(2))), mk("embeds nil ptr", embedsPtr{nil, 2}, model.KV("inner", model.N(), "y", I(2))),
		mk("embeds empty", embedsEmpty{Hollow: &Hollow{1}, Y: 2}, model.KV("empty", model.O(nil), "hollow", model.O(nil), "y", I(2))),
		mk("embeds kinds", embedsKind{Named: 1, Mapped: Mapped{"a": 1}, Y: 2}, model.KV("named", I(1), "mapped", model.KV("a", I(1)), "iface", model.N(), "y", I(2))),
		mk("shadowed", shadowed{Outer{Inner{1}, []int{2}}, "s"}, model.KV("outer", model.KV("inner", model.KV("x", I(1)), "x", model.A(I(2))), "x", S("s"))),
		mk("embeds private", embedsPriv{hidden{1}}, model.O(nil)), mk("embeds both", embedsBoth{hidden{1}, 2}, model.KV("y", I(2))),
		mk("list", list{1, &list{2, nil}}, model.KV("v", I(1), "next", model.KV("v", I(2), "next", model.N()))),
		mk("tagged", tagged{A: 1, B: "hide", C: "c", D: &one, E: 2, F: 3, G: 4, H: 5, ÜmläutÑ: 6, LongCamelCase: 7}, model.KV("alpha", I(1), "c", S("c"), "dd", I(1), "e", I(2), "f", I(3), "dot.ted", I(4), "omitempty", I(5), "ümläutñ", I(6), "longcamelcase", I(7))),
		mk("tagged zero", tagged{}, model.KV("alpha", I(0), "e", I(0), "f", I(0), "dot.ted", I(0), "omitempty", I(0), "ümläutñ", I(0), "longcamelcase", I(0))),
		mk("stringed", stringed{S: 1, P: &ptrStr{2}, I: stringer(3), T: time.Second, N: net.IPv4(1, 2, 3, 4), SO: 5, OS: 6}, model.KV("s", S("#1"), "p", S("P2"), "i", S("#3"), "t", S("1s"), "n", S("1.2.3.4"), "so", S("#5"), "os", S("#6"))),
		mk("stringed zero", stringed{N: net.IPv4(0, 0, 0, 0)}, model.KV("s", S("#0"), "p", model.N(), "i", model.N(), "t", S("0s"), "n", S("0.0.0.0"))),
		mk("skips unsupported", skipsUnsupported{A: 1, c: ch, D: ch}, model.KV("a", I(1))),
		mk("ptr", &one, I(1)), mk("nil ptr", (*int)(nil), model.N()), mk("nil ptr ptr", new(*int), model.N()),
		mk("nil *chan", (*chan int)(nil), model.N()),
		slot("nil interface", anyT, nil, model.N()), slot("nil error", errT, nil, model.N()), slot("nil Stringer", stringerT, nil, model.N()),
		slot("any int", anyT, int8(1), I(1)), slot("any nil ptr", anyT, (*int)(nil), model.N()), slot("any nil ptrErr", anyT, (*ptrErr)(nil), model.N()), slot("error", errT, io.EOF, S("EOF")), slot("error ptrErr", errT, &ptrErr{"x"}, S("ptr:x")), slot("Stringer", stringerT, stringer(2), I(2)),
		mk("chan", ch, unsupported), mk("nil chan", (chan int)(nil), unsupported), mk("recv chan", (<-chan string)(nil), unsupported), mk("myChan", myChan(ch), unsupported),
		mk("func", func() {}, unsupported), mk("nil func", (func(int) string)(nil), unsupported), mk("myFunc", myFunc(nil), unsupported),
		mk("complex64", complex64(1), unsupported), mk("complex128", complex(1, 2), unsupported), mk("complex zero", complex128(0), unsupported), mk("unsafe ptr", unsafe.Pointer(nil), unsupported),
		slot("any chan", anyT, ch, unsupported), slot("any func", anyT, func() {}, unsupported), slot("any complex", anyT, complex64(0), unsupported),
		mk("deep any", []interface{}{map[string]interface{}{"a": []interface{}{ch}}}, unsupported),
		mk("struct with chan", struct{ C chan int }{}, unsupported),
		mk("struct with func", struct {
			A int
			F func() `event:"f"`
		}{}, unsupported),
		mk("map with chan", map[string]chan int{"a": nil}, unsupported),
		mk("empty slice of chan", []chan int{}, model.A()),
		mk("nil map of func", map[string]func(){}, model.O(nil)),
	}
	return ss
}

// wraps lists every way to put a sample inside something.
func wraps(s sample) []sample {
	var out []sample
	add := func(name string, rv reflect.Value, want *model.V) {
		out = append(out, sample{name: name + "(" + s.name + ")", rv: rv, want: want, zero: rv.IsZero()})
	}
	typ := s.rv.Type()
	lift := func(f func(v *model.V) *model.V) *model.V {
		if s.want == nil {
			return nil
		}
		return f(s.want)
	}
	// A pointer (to an interface too).
	p := reflect.New(typ)
	p.Elem().Set(s.rv)
	if !(isErr(p.Type()) && !isErr(typ)) {
		add("ptr", p, s.want)
	}
	add("nilptr", reflect.Zero(reflect.PtrTo(typ)), model.N())
	// Interface.
	if typ.Kind() != reflect.Interface {
		i := reflect.New(anyT).Elem()
		i.Set(s.rv)
		add("any", i, s.want)
	}
	sl := reflect.MakeSlice(reflect.SliceOf(typ), 2, 3)
	sl.Index(0).Set(s.rv)
	sl.Index(1).Set(s.rv)
	add("slice", sl, lift(func(v *model.V) *model.V { return model.A(v, v) }))
	ar := reflect.New(reflect.ArrayOf(1, typ)).Elem()
	ar.Index(0).Set(s.rv)
	add("array", ar, lift(func(v *model.V) *model.V { return model.A(v) }))
	any2 := []interface{}{"x", s.rv.Interface(), nil}
	add("anyslice", reflect.ValueOf(any2), lift(func(v *model.V) *model.V { return model.A(model.S("x"), v, model.N()) }))
	mp := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), typ))
	mp.SetMapIndex(reflect.ValueOf("k.y"), s.rv)
	add("map", mp, lift(func(v *model.V) *model.V { return model.KV("k.y", v) }))
	mi := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(int16(0)), typ))
	mi.SetMapIndex(reflect.ValueOf(int16(-7)), s.rv)
	add("intmap", mi, lift(func(v *model.V) *model.V { return model.KV("-7", v) }))
	add("anymap", reflect.ValueOf(map[string]interface{}{"k": s.rv.Interface(), "z": 1}), lift(func(v *model.V) *model.V { return model.KV("k", v, "z", model.I(1)) }))
	st := func(name, tag string, want *model.V) {
		t := reflect.StructOf([]reflect.StructField{
			{Name: "Before", Type: reflect.TypeOf(0)},
			{Name: "FieldName", Type: typ, Tag: reflect.StructTag(tag)},
			{Name: "After", Type: reflect.TypeOf("")},
		})
		v := reflect.New(t).Elem()
		v.Field(0).SetInt(3)
		v.Field(1).Set(s.rv)
		v.Field(2).SetString("z")
		add(name, v, want)
	}
	with := func(n string) *model.V {
		return lift(func(v *model.V) *model.V { return model.KV("before", model.I(3), n, v, "after", model.S("z")) })
	}
	without := model.KV("before", model.I(3), "after", model.S("z"))
	st("struct", "", with("fieldname"))
	st("named", `event:"n_m"`, with("n_m"))
	st("dotted", `event:"n.m,"`, with("n.m"))
	st("dash", `event:"-"`, without)
	st("named dash", `event:"-,"`, with("-"))
	if s.zero {
		st("omit", `event:",omitempty"`, without)
		st("omitnamed", `event:"q,omitempty"`, without)
	} else {
		st("omit", `event:",omitempty"`, with("fieldname"))
		st("omitnamed", `event:"q,omitempty"`, with("q"))
	}
	if x, ok := s.rv.Interface().(fmt.Stringer); ok && s.want != nil {
		w := s.want
		if w.K != model.Null {
			w = model.S(x.String())
		}
		st("string", `event:",string"`, model.KV("before", model.I(3), "fieldname", w, "after", model.S("z")))
	}
	// Unexported field.
	t := reflect.StructOf([]reflect.StructField{
		{Name: "hidden", PkgPath: "verif", Type: typ},
		{Name: "Shown", Type: reflect.TypeOf(0)},
	})
	add("unexported", reflect.New(t).Elem(), model.KV("shown", model.I(0)))
	return out
}

func oddNames() []string {
	names := []string{"", "-", "-a", " ", " a", "a ", "a b", "\ta", "A", "aB", "É", "\u00a0x", "a.b", ".", "..", ".a", "a.", `a\.b`, `a\`, `"q"`, "'", "`", "@t", "$x", "a:b", "a=b", "0", "-1", "007", "_", "__proto__", "null", "true", "omitempty", "string", "event", "x,y", "\x00", "\u2028", "\ufeff", "\U0001f600", "a\xff"}
	for n := 1; n < 4; n++ {
		names = append(names, strings.Repeat("n", 1<<(4*n)))
	}
	return append(append(names, model.OddNames()...), model.SourceNames()...)
}

func isErr(t reflect.Type) bool { return t.Implements(errT) }

func check(t *mc.T, s sample) {
	t.At(func() string { return fmt.Sprintf("Go value %s of type %s", s.name, s.rv.Type()) })
	var in interface{}
	if s.rv.Kind() == reflect.Interface && s.rv.IsNil() {
		in = nil
	} else {
		in = s.rv.Interface()
	}
	for pass := 0; pass < 2; pass++ {
		t.Eval(1)
		v, err := eventutil.ReflectValue(in)
		compare(t, "ReflectValue", s.want, v, err)
	}
	e, err := mapinterface.ToEvent(map[string]interface{}{"k": in})
	var v *event.Value
	if err == nil {
		v = e.Get("k")
	}
	compare(t, "ToEvent", s.want, v, err)
	t.Outcome(s.rv.Type().String() + "/" + s.want.Canon())
}

func compare(t *mc.T, what string, want *model.V, v *event.Value, err error) {
	if want == nil {
		var u *eventutil.UnsupportedTypeError
		if err == nil || !errors.As(err, &u) {
			t.Fail("%s: want an unsupported type error, got %v, %v", what, model.From(v).Canon(), err)
		}
		if u.Type == nil {
			t.Fail("%s: the error names no type", what)
		}
		switch u.Type.Kind() {
		case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer:
		default:
			t.Fail("%s: the error names the type %s", what, u.Type)
		}
		_ = u.Error()
		return
	}
	if err != nil {
		t.Fail("%s: error %v, want %s", what, err, want.Canon())
	}
	if !model.Equal(model.From(v), want) {
		t.Fail("%s gives %s, want %s", what, model.From(v).Canon(), want.Canon())
	}
}

func changed(t *mc.T, a, b sample) {
	box := []interface{}{nil}
	dict := map[string]interface{}{}
	hold := &struct {
		X interface{}   `event:"x"`
		L []interface{} `event:"l"`
	}{}
	var any interface{}
	set := func(v interface{}) {
		box[0], dict["k"], hold.X, hold.L, any = v, v, v, box, v
	}
	one := func(s sample) []sample {
		return []sample{
			{name: "a slice", rv: reflect.ValueOf(box), want: listOf(s.want)},
			{name: "a pointer to a slice", rv: reflect.ValueOf(&box), want: listOf(s.want)},
			{name: "a map", rv: reflect.ValueOf(dict), want: keyed("k", s.want)},
			{name: "a pointer to a map", rv: reflect.ValueOf(&dict), want: keyed("k", s.want)},
			{name: "a pointer to a struct", rv: reflect.ValueOf(hold), want: held(s.want)},
			{name: "a pointer to an interface", rv: reflect.ValueOf(&any), want: s.want},
		}
	}
	first := []sample{a, b}
	for k := range one(a) {
		var old []*event.Value
		for round, s := range append(first, a) {
			set(s.rv.Interface())
			c := one(s)[k]
			t.At(func() string {
				return fmt.Sprintf("%s holding %s, then %s, then %s: round %d", c.name, a.name, b.name, a.name, round+1)
			})
			t.Eval(1)
			v, err := eventutil.ReflectValue(c.rv.Interface())
			compare(t, "ReflectValue", c.want, v, err)
			if err != nil {
				v = nil
			}
			old = append(old, v)
			for i, o := range old {
				w := one([]sample{a, b, a}[i])[k].want
				if o != nil && w != nil && !model.Equal(model.From(o), w) {
					t.Fail("the result of round %d is %s now, it was %s", i+1, model.From(o).Canon(), w.Canon())
				}
			}
		}
		t.Outcome("changed in place/" + one(a)[k].name + a.name + b.name)
	}
}

func keyed(k string, v *model.V) *model.V {
	if v == nil {
		return nil
	}
	return model.KV(k, v)
}

func held(v *model.V) *model.V {
	if v == nil {
		return nil
	}
	return model.KV("x", v, "l", model.A(v))
}

func main() {
	bs := bases()
	mc.Main(&mc.Check{
		ID: "C07", Level: "exploration",
		Rule:        "every composition, up to the stated depth, of pointers, interfaces, slices, arrays, maps and tagged struct fields over every base kind (types built by reflection), and every pair of base values side by side; distinct by (type, expected result)",
		Assumptions: []string{"the string option on a value without a String method and colliding field names are not documented and not checked"},
		Bounds: func(tier string) map[string]interface{} {
			return map[string]interface{}{"base_values": len(bs), "composition_depth": 3, "reduced_base_depth": 4, "side_by_side": pick(tier, 2, 3), "nesting": pick(tier, 200, 1000)}
		},
		Units: func(tier string, yield func(string, func(*mc.T)) bool) {
			for _, s := range bs {
				s := s
				if !yield("base "+s.name, func(t *mc.T) {
					check(t, s)
					for _, w := range wraps(s) {
						check(t, w)
						for _, w2 := range wraps(w) {
							check(t, w2)
						}
					}
					t.Sample(func() string { return s.rv.Type().String() + " -> " + s.want.Canon() })
				}) {
					return
				}
			}
			// Pairs side by side in every kind of container.
			for i := range bs {
				a := bs[i]
				if !yield("pairs "+a.name, func(t *mc.T) {
					for _, b := range bs {
						var want, wantM, wantS *model.V
						if a.want != nil && b.want != nil {
							want = model.A(a.want, b.want)
							wantM = model.KV("a", a.want, "b", b.want)
							wantS = model.KV("first", a.want, "second", b.want)
						}
						name := a.name + " and " + b.name
						check(t, sample{name: name, rv: reflect.ValueOf([]interface{}{a.rv.Interface(), b.rv.Interface()}), want: want})
						check(t, sample{name: name, rv: reflect.ValueOf(map[string]interface{}{"a": a.rv.Interface(), "b": b.rv.Interface()}), want: wantM})
						st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "First", Type: a.rv.Type()}, {Name: "Second", Type: b.rv.Type()}})).Elem()
						st.Field(0).Set(a.rv)
						st.Field(1).Set(b.rv)
						check(t, sample{name: name, rv: st, want: wantS})
						// As map keys' values in one typed map of any.
						check(t, sample{name: name, rv: reflect.ValueOf(&[]interface{}{&[]interface{}{a.rv.Interface()}, b.rv.Interface()}), want: nestA(a.want, b.want)})
					}
				}) {
					return
				}
			}
			// Names: those given in tags are taken as they are, those of fields in
			// lower case, keys of maps as they are.
			if !yield("names", func(t *mc.T) {
				inner := []sample{bs[2], mk("string", "x", model.S("x")), mk("empty string", "", model.S("")), mk("nil ptr", (*int)(nil), model.N()), mk("map", map[string]int{"a.b": 1}, model.KV("a.b", model.I(1))), mk("time", time.Unix(0, 5), model.T(5)), mk("chan", make(chan int), nil)}
				for _, n := range oddNames() {
					for _, s := range inner {
						one := func(n string) *model.V {
							if s.want == nil {
								return nil
							}
							return model.KV(n, s.want)
						}
						for _, opts := range []string{"", ",", ",omitempty"} {
							if n == "" || strings.Contains(n, ",") || n == "-" && opts == "" {
								continue
							}
							w := one(n)
							if opts == ",omitempty" && s.zero {
								w = model.KV()
							}
							st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: s.rv.Type(), Tag: reflect.StructTag("event:" + strconv.Quote(n+opts))}})).Elem()
							st.Field(0).Set(s.rv)
							check(t, sample{name: fmt.Sprintf("%s in a field tagged %q", s.name, n+opts), rv: st, want: w})
						}
						m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), s.rv.Type()))
						m.SetMapIndex(reflect.ValueOf(n), s.rv)
						check(t, sample{name: fmt.Sprintf("%s in a map under %q", s.name, n), rv: m, want: one(n)})
						check(t, sample{name: fmt.Sprintf("%s in a map of any under %q", s.name, n), rv: reflect.ValueOf(map[string]interface{}{n: s.rv.Interface()}), want: one(n)})
					}
				}
				for _, n := range []string{"A", "AB", "ABc", "A1", "X_Y", "É", "Ǆx", "İ", "ΑΣ", "K", "Ωa", "ẞ", "Ünï", "HTTPServer", "UserID", "Event", "String", "Error", strings.Repeat("Long", 300)} {
					for _, s := range inner {
						var w *model.V
						if s.want != nil {
							w = model.KV(strings.ToLower(n), s.want)
						}
						st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: n, Type: s.rv.Type()}})).Elem()
						st.Field(0).Set(s.rv)
						check(t, sample{name: fmt.Sprintf("%s in the field %s", s.name, n), rv: st, want: w})
					}
				}
			}) {
				return
			}
			// The same container again after its content was changed in place: the
			// result denotes what it holds now, the earlier result what it held.
			for i := range bs {
				a := bs[i]
				if !yield("changed in place "+a.name, func(t *mc.T) {
					for _, b := range bs {
						changed(t, a, b)
					}
				}) {
					return
				}
			}
			// Depth and width.
			for _, d := range depths(pick(tier, 200, 1000)) {
				d := d
				if !yield(fmt.Sprintf("nesting %d", d), func(t *mc.T) {
					for _, leaf := range []sample{bs[2], mk("chan", make(chan int), nil), mk("nil ptr", (*int)(nil), model.N()), mk("time", time.Unix(0, 5), model.T(5))} {
						var a, m, p interface{} = leaf.rv.Interface(), leaf.rv.Interface(), leaf.rv.Interface()
						wa, wm := leaf.want, leaf.want
						var l *list
						var wl = model.N()
						for i := 0; i < d; i++ {
							a, m = []interface{}{a}, map[string]interface{}{"k.k": m}
							q := p
							p = &q
							if leaf.want != nil {
								wa, wm = model.A(wa), model.KV("k.k", wm)
							}
							l = &list{i, l}
							wl = model.KV("v", model.I(int64(i)), "next", wl)
						}
						check(t, sample{name: "nested slices", rv: reflect.ValueOf(a), want: wa})
						check(t, sample{name: "nested maps", rv: reflect.ValueOf(m), want: wm})
						check(t, sample{name: "nested pointers", rv: reflect.ValueOf(p), want: leaf.want})
						check(t, sample{name: "linked list", rv: reflect.ValueOf(l), want: wl})
					}
				}) {
					return
				}
			}
			for _, n := range append([]int{0}, model.Sizes(260, pick(tier, 20000, 70000))...) {
				n := n
				if !yield(fmt.Sprintf("width %d", n), func(t *mc.T) {
					s, m, w, o := make([]uint16, n), map[int]int{}, model.A(), model.O(nil)
					var f []reflect.StructField
					for i := 0; i < n; i++ {
						s[i] = uint16(i)
						m[i] = -i
						w.A = append(w.A, model.U(uint64(i)))
						o.O[fmt.Sprint(i)] = model.I(int64(-i))
						f = append(f, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf(`event:"%s"`, strings.Repeat("t", i+1)))})
					}
					check(t, sample{name: "wide slice", rv: reflect.ValueOf(s), want: w})
					check(t, sample{name: "wide map", rv: reflect.ValueOf(m), want: o})
					if (n%8 == 0 || n > 260 && n < 400) && n <= 4096 {
						so := model.O(nil)
						st := reflect.New(reflect.StructOf(f)).Elem()
						for i := 0; i < n; i++ {
							st.Field(i).SetString(fmt.Sprint(i))
							so.O[strings.Repeat("t", i+1)] = model.S(fmt.Sprint(i))
						}
						check(t, sample{name: "wide struct", rv: st, want: so})
					}
				}) {
					return
				}
			}
			// Deeper compositions over a base of each behaviour.
			var few []sample
			pickNames := map[string]bool{"int": true, "nil slice": true, "time": true, "*ptrErr": true, "nil *ptrErr": true, "nil error": true, "nil interface": true, "chan": true, "stringed": true, "tagged": true, "nil ptr": true, "myMap": true, "empty slice": true, "complex zero": true, "error": true}
			for _, s := range bs {
				if pickNames[s.name] {
					few = append(few, s)
				}
			}
			var rec func(t *mc.T, s sample, d int)
			rec = func(t *mc.T, s sample, d int) {
				check(t, s)
				if d > 0 {
					for _, w := range wraps(s) {
						rec(t, w, d-1)
					}
				}
			}
			for _, s := range few {
				for _, w := range wraps(s) {
					w := w
					if !yield("deep "+w.name, func(t *mc.T) { rec(t, w, 3) }) {
						return
					}
				}
			}
			for _, s := range bs {
				for _, w := range wraps(s) {
					w := w
					if !yield("depth 3 "+w.name, func(t *mc.T) { rec(t, w, 2) }) {
						return
					}
				}
			}
			if tier == "thorough" {
				for i := range bs {
					for j := range bs {
						a, b := bs[i], bs[j]
						if !yield("triples "+a.name+", "+b.name, func(t *mc.T) {
							for _, c := range bs {
								check(t, sample{name: "a list of " + a.name + ", " + b.name + " and " + c.name, rv: reflect.ValueOf([]interface{}{a.rv.Interface(), b.rv.Interface(), c.rv.Interface()}), want: listOf(a.want, b.want, c.want)})
								check(t, sample{name: "a list of " + a.name + ", a map of " + b.name + " and " + c.name, rv: reflect.ValueOf([]interface{}{a.rv.Interface(), map[string]interface{}{"b": b.rv.Interface(), "c": c.rv.Interface()}}), want: listOf(a.want, mapOf(b.want, c.want))})
							}
						}) {
							return
						}
					}
				}
			}
		},
	})
}

func nestA(a, b *model.V) *model.V {
	if a == nil || b == nil {
		return nil
	}
	return model.A(model.A(a), b)
}

func listOf(vs ...*model.V) *model.V {
	for _, v := range vs {
		if v == nil {
			return nil
		}
	}
	return model.A(vs...)
}

func mapOf(b, c *model.V) *model.V {
	if b == nil || c == nil {
		return nil
	}
	return model.KV("b", b, "c", c)
}

func depths(max int) []int {
	var out []int
	for d := 1; d <= max; d += 1 + d/40 {
		out = append(out, d)
	}
	return model.WithSourceSizes(out, 9000)
}
