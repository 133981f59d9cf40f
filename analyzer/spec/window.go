package spec

import "math"

// cosine sums a0 - a1 cos(2 pi i/(n-1)) + a2 cos(4 pi i/(n-1)) - a3 cos(6 pi i/(n-1));
// the window of length one is 1.
func cosWin(w []float64, a0, a1, a2, a3 float64) {
	n := len(w)
	for i := 0; i < n; i++ {
		if n == 1 {
			w[i] = 1
		} else {
			p := 2 * math.Pi * float64(i) / float64(n-1)
			w[i] = a0 - a1*math.Cos(p) + a2*math.Cos(2*p) - a3*math.Cos(3*p)
		}
	}
}

func cosWin32(w []float32, a0, a1, a2, a3 float64) {
	n := len(w)
	for i := 0; i < n; i++ {
		if n == 1 {
			w[i] = 1
		} else {
			p := 2 * math.Pi * float64(i) / float64(n-1)
			w[i] = float32(a0 - a1*math.Cos(p) + a2*math.Cos(2*p) - a3*math.Cos(3*p))
		}
	}
}

func HammingWindow(w []float64)     { cosWin(w, 0.53836, 0.46164, 0, 0) }
func HammingWindowF32(w []float32)  { cosWin32(w, 0.53836, 0.46164, 0, 0) }
func HanningWindow(w []float64)     { cosWin(w, 0.5, 0.5, 0, 0) }
func HanningWindowF32(w []float32)  { cosWin32(w, 0.5, 0.5, 0, 0) }
func BlackmanWindow(w []float64)    { cosWin(w, 0.42, 0.5, 0.08, 0) }
func BlackmanWindowF32(w []float32) { cosWin32(w, 0.42, 0.5, 0.08, 0) }
func NuttallWindow(w []float64)     { cosWin(w, 0.355768, 0.487396, 0.144232, 0.012604) }
func NuttallWindowF32(w []float32)  { cosWin32(w, 0.355768, 0.487396, 0.144232, 0.012604) }

func TriangleWindow(w []float64) {
	n := float64(len(w))
	for i := 0; i < len(w); i++ {
		w[i] = 1 - math.Abs(float64(i)-(n-1)/2)*2/(n+1)
	}
}

func TriangleWindowF32(w []float32) {
	n := float64(len(w))
	for i := 0; i < len(w); i++ {
		w[i] = float32(1 - math.Abs(float64(i)-(n-1)/2)*2/(n+1))
	}
}

// Frequency-domain coefficients of the same windows: a0 in the middle, half
// of every cosine's weight on either side with the sign of the term.
func Tables() (b, m, n []float64, b32, m32, n32 []float32) {
	b = []float64{0.08 / 2, -0.5 / 2, 0.42, -0.5 / 2, 0.08 / 2}
	m = []float64{-0.46164 / 2, 0.53836, -0.46164 / 2}
	n = []float64{-0.5 / 2, 0.5, -0.5 / 2}
	b32 = []float32{0.08 / 2, -0.5 / 2, 0.42, -0.5 / 2, 0.08 / 2}
	m32 = []float32{-0.46164 / 2, 0.53836, -0.46164 / 2}
	n32 = []float32{-0.5 / 2, 0.5, -0.5 / 2}
	return
}
