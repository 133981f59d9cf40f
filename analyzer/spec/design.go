package spec

import "math"

// Audio EQ Cookbook, R. Bristow-Johnson.  Last result: b0/a0*x, the first
// output of a section at rest.

func LowPass(fs, f0, q, x float64) (b0, b1, b2, a0, a1, a2, y float64) {
	w0 := 2 * math.Pi * f0 / fs
	c, s := math.Cos(w0), math.Sin(w0)
	alpha := s / (2 * q)
	b0, b1, b2, a0, a1, a2 = (1-c)/2, 1-c, (1-c)/2, 1+alpha, -2*c, 1-alpha
	return b0, b1, b2, a0, a1, a2, b0 / a0 * x
}

func HighPass(fs, f0, q, x float64) (b0, b1, b2, a0, a1, a2, y float64) {
	w0 := 2 * math.Pi * f0 / fs
	c, s := math.Cos(w0), math.Sin(w0)
	alpha := s / (2 * q)
	b0, b1, b2, a0, a1, a2 = (1+c)/2, -(1 + c), (1+c)/2, 1+alpha, -2*c, 1-alpha
	return b0, b1, b2, a0, a1, a2, b0 / a0 * x
}

func BandPassSkirt(fs, f0, q, x float64) (b0, b1, b2, a0, a1, a2, y float64) {
	w0 := 2 * math.Pi * f0 / fs
	c, s := math.Cos(w0), math.Sin(w0)
	alpha := s / (2 * q)
	b0, b1, b2, a0, a1, a2 = s/2, 0, -s/2, 1+alpha, -2*c, 1-alpha
	return b0, b1, b2, a0, a1, a2, b0 / a0 * x
}

func BandPassPeak(fs, f0, q, x float64) (b0, b1, b2, a0, a1, a2, y float64) {
	w0 := 2 * math.Pi * f0 / fs
	c, s := math.Cos(w0), math.Sin(w0)
	alpha := s / (2 * q)
	b0, b1, b2, a0, a1, a2 = alpha, 0, -alpha, 1+alpha, -2*c, 1-alpha
	return b0, b1, b2, a0, a1, a2, b0 / a0 * x
}

func Notch(fs, f0, q, x float64) (b0, b1, b2, a0, a1, a2, y float64) {
	w0 := 2 * math.Pi * f0 / fs
	c, s := math.Cos(w0), math.Sin(w0)
	alpha := s / (2 * q)
	b0, b1, b2, a0, a1, a2 = 1, -2*c, 1, 1+alpha, -2*c, 1-alpha
	return b0, b1, b2, a0, a1, a2, b0 / a0 * x
}

func AllPass(fs, f0, q, x float64) (b0, b1, b2, a0, a1, a2, y float64) {
	w0 := 2 * math.Pi * f0 / fs
	c, s := math.Cos(w0), math.Sin(w0)
	alpha := s / (2 * q)
	b0, b1, b2, a0, a1, a2 = 1-alpha, -2*c, 1+alpha, 1+alpha, -2*c, 1-alpha
	return b0, b1, b2, a0, a1, a2, b0 / a0 * x
}

func Peaking(fs, f0, q, db, x float64) (b0, b1, b2, a0, a1, a2, y float64) {
	A := math.Pow(10, db/40)
	w0 := 2 * math.Pi * f0 / fs
	c, s := math.Cos(w0), math.Sin(w0)
	alpha := s / (2 * q)
	b0, b1, b2, a0, a1, a2 = 1+alpha*A, -2*c, 1-alpha*A, 1+alpha/A, -2*c, 1-alpha/A
	return b0, b1, b2, a0, a1, a2, b0 / a0 * x
}

func LowShelf(fs, f0, q, db, x float64) (b0, b1, b2, a0, a1, a2, y float64) {
	A := math.Pow(10, db/40)
	w0 := 2 * math.Pi * f0 / fs
	c, s := math.Cos(w0), math.Sin(w0)
	alpha := s / 2 * math.Sqrt((A+1/A)*(1/q-1)+2)
	g := 2 * math.Sqrt(A) * alpha
	b0, b1, b2, a0, a1, a2 = A*((A+1)-(A-1)*c+g), 2*A*((A-1)-(A+1)*c), A*((A+1)-(A-1)*c-g), (A+1)+(A-1)*c+g, -2*((A-1)+(A+1)*c), (A+1)+(A-1)*c-g
	return b0, b1, b2, a0, a1, a2, b0 / a0 * x
}

func HighShelf(fs, f0, q, db, x float64) (b0, b1, b2, a0, a1, a2, y float64) {
	A := math.Pow(10, db/40)
	w0 := 2 * math.Pi * f0 / fs
	c, s := math.Cos(w0), math.Sin(w0)
	alpha := s / 2 * math.Sqrt((A+1/A)*(1/q-1)+2)
	g := 2 * math.Sqrt(A) * alpha
	b0, b1, b2, a0, a1, a2 = A*((A+1)+(A-1)*c+g), -2*A*((A-1)+(A+1)*c), A*((A+1)+(A-1)*c-g), (A+1)-(A-1)*c+g, 2*((A-1)-(A+1)*c), (A+1)-(A-1)*c-g
	return b0, b1, b2, a0, a1, a2, b0 / a0 * x
}
