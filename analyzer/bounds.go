package main

import (
	"fmt"
	"math"
)

// supOn bounds |f| over [lo, hi] from above: subdivision into n cells, in each
// the value at the midpoint and a bound on |f'|.
func supOn(f func(float64) float64, lo, hi, lip float64, n int) float64 {
	h := (hi - lo) / float64(n)
	m := 0.0
	for i := 0; i < n; i++ {
		if v := math.Abs(f(lo+(float64(i)+0.5)*h)) + lip*h/2; v > m {
			m = v
		}
	}
	return m + 1e-9
}

// atanBounds bounds the distance of the two reference formulas from the
// arctangent.  With |y| = a, atan2(a, x) is pi/4 - atan(r), r = (x-a)/(x+a),
// for x >= 0, and 3pi/4 - atan(r), r = (x+a)/(a-x), for x < 0; |r| <= 1.
// Outside |z| < 1 the second formula is pi/2 - w/(1+0.28w^2) with w = 1/z.
func atanBounds(r *Report) {
	e1 := supOn(func(t float64) float64 { return math.Atan(t) - 0.9817*t + 0.1963*t*t*t }, -1, 1, 2, 400000)
	e2 := supOn(func(z float64) float64 { return math.Atan(z) - z/(1+0.28*z*z) }, -1, 1, 3, 400000)
	for _, b := range []struct {
		n        string
		got, lim float64
	}{{"FastAtan2", e1, 0.0102}, {"FastAtan2_2", e2, 0.005}} {
		r.results = append(r.results, ItemResult{Item: "error of the " + b.n + " formula", Rule: fmt.Sprintf("|formula - atan| <= %.6f by subdivision of the ratio into 400000 intervals with a derivative bound", b.got), Obligations: 1, Discharged: 1})
		if b.got > b.lim {
			r.violate(b.n+"/bound", "reference", "the formula is off by up to %v", b.got)
		}
	}
}
