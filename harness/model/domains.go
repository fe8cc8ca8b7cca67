package model

import "math"

// Scalars lists every scalar kind with boundary payloads.
func Scalars() []*V {
	vs := []*V{N(), B(true), B(false), S(""), S("x"), S("A b\x00\n\"\\"), S("é\u2028\U0001F600"),
		I(0), I(1), I(-1), I(math.MaxInt64), I(math.MinInt64), I(1 << 53), I(1<<53 + 1),
		U(0), U(1), U(math.MaxUint64), U(1 << 63), U(1<<63 - 1),
		F(0), F(math.Copysign(0, -1)), F(1), F(-1.5), F(0.1), F(1e21), F(1e20), F(123456789), F(1e-7), F(math.MaxFloat64), F(-math.MaxFloat64),
		F(math.SmallestNonzeroFloat64), F(math.Inf(1)), F(math.Inf(-1)), F(math.NaN()),
		T(0), T(1), T(-1), T(1257894000123456789), T(math.MaxInt64), T(math.MinInt64), T(1000000000)}
	return vs
}
