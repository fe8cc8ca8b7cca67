package model

import "fmt"

// WideSizes lists numbers of members around those at which code might change
// its behaviour, among them the constants of the sources under test.
func WideSizes() []int {
	return WithSourceSizes([]int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049}, 70000)
}

// Wide lists events with n members (or elements) at one spot, among them ones
// with short, empty, dotted and null-valued names and every kind of value.
func Wide(n int) []*V {
	leaf := func(i int) *V {
		switch i % 9 {
		case 0:
			return I(int64(-i))
		case 1:
			return S(fmt.Sprint("s", i))
		case 2:
			return N()
		case 3:
			return F(float64(i) + 0.5)
		case 4:
			return &V{K: Bool, B: i%2 == 0}
		case 5:
			return O(nil)
		case 6:
			return A()
		case 7:
			return KV("x", I(int64(i)), "y", A(S("")))
		}
		return A(I(int64(i)), N())
	}
	name := func(i int) string {
		switch i {
		case 1:
			return "a.b"
		case 2:
			return "."
		case 3:
			return "0"
		}
		return fmt.Sprint("k", i)
	}
	obj := func(empty bool) *V {
		o := O(nil)
		for i := 0; i < n; i++ {
			o.O[name(i)] = leaf(i)
		}
		if empty {
			o.O[""] = S("empty name")
		}
		return o
	}
	arr := A()
	for i := 0; i < n; i++ {
		arr.A = append(arr.A, leaf(i))
	}
	same := A()
	for i := 0; i < n; i++ {
		same.A = append(same.A, KV("x", I(int64(i)), "", N()))
	}
	return []*V{obj(false), KV("o", obj(true), "z", I(1)), KV("o", KV("p", obj(true))), KV("a", arr, "z", I(1)), KV("a", A(I(1), arr, obj(true))), KV("o", KV("s", same))}
}
