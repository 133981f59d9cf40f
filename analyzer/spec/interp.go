package spec

import "math"

func at(s []float64, j int) float64 {
	if j >= 0 && j < len(s) {
		return s[j]
	}
	return 0
}

func at32(s []float32, j int) float32 {
	if j >= 0 && j < len(s) {
		return s[j]
	}
	return 0
}

// Between the two neighbours; zero before the first sample.
func Linear(s []float64, x float64) float64 {
	Require(x < 1<<62 && x > -(1<<62))
	if x < 0 {
		return 0
	}
	f := math.Floor(x)
	i := int(f)
	t := x - f
	if i >= len(s) {
		return 0
	}
	return (1-t)*at(s, i) + t*at(s, i+1)
}

func LinearF32(s []float32, x float32) float32 {
	Require(x < 1<<62 && x > -(1<<62))
	if x < 0 {
		return 0
	}
	f := float32(math.Floor(float64(x)))
	i := int(f)
	t := x - f
	if i >= len(s) {
		return 0
	}
	return (1-t)*at32(s, i) + t*at32(s, i+1)
}

// O. Niemitalo, Polynomial Interpolators for High-Quality Resampling of
// Oversampled Audio.
func Hermite4p3o(s []float64, x float64) float64 {
	Require(x < 1<<62 && x > -(1<<62))
	f := math.Floor(x)
	i := int(f)
	t := x - f
	a, b, c, d := at(s, i-1), at(s, i), at(s, i+1), at(s, i+2)
	return b + t*(c-a)/2 + t*t*(a-2.5*b+2*c-d/2) + t*t*t*((d-a)/2+1.5*(b-c))
}

func Hermite4p3oF32(s []float32, x float32) float32 {
	Require(x < 1<<62 && x > -(1<<62))
	f := math.Floor(float64(x))
	i := int(f)
	t := x - float32(f)
	a, b, c, d := at32(s, i-1), at32(s, i), at32(s, i+1), at32(s, i+2)
	return b + t*(c-a)/2 + t*t*(a-2.5*b+2*c-d/2) + t*t*t*((d-a)/2+1.5*(b-c))
}

func Optimal2x4p4o(s []float64, x float64) float64 {
	Require(x < 1<<62 && x > -(1<<62))
	f := math.Floor(x)
	i := int(f)
	z := x - f - 0.5
	a, b, c, d := at(s, i-1), at(s, i), at(s, i+1), at(s, i+2)
	e1, o1, e2, o2 := c+b, c-b, d+a, d-a
	c0 := e1*0.45645918406487612 + e2*0.04354173901996461
	c1 := o1*0.47236675362442071 + o2*0.17686613581136501
	c2 := e1*-0.253674794204558521 + e2*0.25371918651882464
	c3 := o1*-0.37917091811631082 + o2*0.11952965967158000
	c4 := e1*0.04252164479749607 + e2*-0.04289144034653719
	return c0 + z*c1 + z*z*c2 + z*z*z*c3 + z*z*z*z*c4
}

func Optimal2x4p4oF32(s []float32, x float32) float32 {
	Require(x < 1<<62 && x > -(1<<62))
	f := math.Floor(float64(x))
	i := int(f)
	z := x - float32(f) - 0.5
	a, b, c, d := at32(s, i-1), at32(s, i), at32(s, i+1), at32(s, i+2)
	e1, o1, e2, o2 := c+b, c-b, d+a, d-a
	c0 := e1*0.45645918406487612 + e2*0.04354173901996461
	c1 := o1*0.47236675362442071 + o2*0.17686613581136501
	c2 := e1*-0.253674794204558521 + e2*0.25371918651882464
	c3 := o1*-0.37917091811631082 + o2*0.11952965967158000
	c4 := e1*0.04252164479749607 + e2*-0.04289144034653719
	return c0 + z*c1 + z*z*c2 + z*z*z*c3 + z*z*z*z*c4
}

func Optimal2x6p5o(s []float64, x float64) float64 {
	Require(x < 1<<62 && x > -(1<<62))
	f := math.Floor(x)
	i := int(f)
	z := x - f - 0.5
	a, b, c, d, e, g := at(s, i-2), at(s, i-1), at(s, i), at(s, i+1), at(s, i+2), at(s, i+3)
	e1, o1, e2, o2, e3, o3 := d+c, d-c, e+b, e-b, g+a, g-a
	c0 := e1*0.40513396007145713 + e2*0.09251794438424393 + e3*0.00234806603570670
	c1 := o1*0.28342806338906690 + o2*0.21703277024054901 + o3*0.01309294748731515
	c2 := e1*-0.191337682540351941 + e2*0.16187844487943592 + e3*0.02946017143111912
	c3 := o1*-0.16471626190554542 + o2*-0.00154547203542499 + o3*0.03399271444851909
	c4 := e1*0.03845798729588149 + e2*-0.05712936104242644 + e3*0.01866750929921070
	c5 := o1*0.04317950185225609 + o2*-0.01802814255926417 + o3*0.00152170021558204
	return c0 + z*c1 + z*z*c2 + z*z*z*c3 + z*z*z*z*c4 + z*z*z*z*z*c5
}

func Optimal2x6p5oF32(s []float32, x float32) float32 {
	Require(x < 1<<62 && x > -(1<<62))
	f := math.Floor(float64(x))
	i := int(f)
	z := x - float32(f) - 0.5
	a, b, c, d, e, g := at32(s, i-2), at32(s, i-1), at32(s, i), at32(s, i+1), at32(s, i+2), at32(s, i+3)
	e1, o1, e2, o2, e3, o3 := d+c, d-c, e+b, e-b, g+a, g-a
	c0 := e1*0.40513396007145713 + e2*0.09251794438424393 + e3*0.00234806603570670
	c1 := o1*0.28342806338906690 + o2*0.21703277024054901 + o3*0.01309294748731515
	c2 := e1*-0.191337682540351941 + e2*0.16187844487943592 + e3*0.02946017143111912
	c3 := o1*-0.16471626190554542 + o2*-0.00154547203542499 + o3*0.03399271444851909
	c4 := e1*0.03845798729588149 + e2*-0.05712936104242644 + e3*0.01866750929921070
	c5 := o1*0.04317950185225609 + o2*-0.01802814255926417 + o3*0.00152170021558204
	return c0 + z*c1 + z*z*c2 + z*z*z*c3 + z*z*z*z*c4 + z*z*z*z*z*c5
}
