package spec

import "math"

// bin is the angular frequency of the DFT bin closest to f.
func bin(f uint64, rate, block int) float64 {
	k := uint64(0.5 + float64(uint64(block)*f)/float64(rate))
	return 2 * math.Pi * float64(k) / float64(block)
}

func Goertzel(freqs []uint64, rate, block int, x []float64, cuts []int, reset, look []bool) ([]float64, []complex128) {
	Require(rate > 0 && block > 0)
	n := len(freqs)
	q1, q2 := make([]float64, n), make([]float64, n)
	for i, m := range cuts {
		_ = look[i]
		if reset[i] {
			for j := range q1 {
				q1[j], q2[j] = 0, 0
			}
		}
		for t := 0; t < m; t++ {
			for j := 0; j < n; j++ {
				q1[j], q2[j] = 2*math.Cos(bin(freqs[j], rate, block))*q1[j]-q2[j]+x[t], q1[j]
			}
		}
		x = x[m:]
	}
	mag, c := make([]float64, n), make([]complex128, n)
	for j := range mag {
		w := bin(freqs[j], rate, block)
		mag[j] = q1[j]*q1[j] + q2[j]*q2[j] - 2*math.Cos(w)*q1[j]*q2[j]
		c[j] = complex(q1[j]*math.Cos(w)-q2[j], q1[j]*math.Sin(w))
	}
	return mag, c
}

func Goertzel32(freqs []uint64, rate, block int, x []float32, cuts []int, reset, look []bool) ([]float32, []complex64) {
	Require(rate > 0 && block > 0)
	n := len(freqs)
	q1, q2 := make([]float64, n), make([]float64, n)
	for i, m := range cuts {
		_ = look[i]
		if reset[i] {
			for j := range q1 {
				q1[j], q2[j] = 0, 0
			}
		}
		for t := 0; t < m; t++ {
			for j := 0; j < n; j++ {
				q1[j], q2[j] = 2*math.Cos(bin(freqs[j], rate, block))*q1[j]-q2[j]+float64(x[t]), q1[j]
			}
		}
		x = x[m:]
	}
	mag, c := make([]float32, n), make([]complex64, n)
	for j := range mag {
		w := bin(freqs[j], rate, block)
		mag[j] = float32(q1[j]*q1[j] + q2[j]*q2[j] - 2*math.Cos(w)*q1[j]*q2[j])
		c[j] = complex(float32(q1[j]*math.Cos(w)-q2[j]), float32(q1[j]*math.Sin(w)))
	}
	return mag, c
}

func ComplexGoertzel(freqs []uint64, rate, block int, x []complex128, cuts []int, reset, look []bool) ([]float64, []complex128) {
	Require(rate > 0 && block > 0)
	n := len(freqs)
	q1, q2 := make([]float64, n), make([]float64, n)
	p1, p2 := make([]float64, n), make([]float64, n)
	for i, m := range cuts {
		_ = look[i]
		if reset[i] {
			for j := range q1 {
				q1[j], q2[j], p1[j], p2[j] = 0, 0, 0, 0
			}
		}
		for t := 0; t < m; t++ {
			for j := 0; j < n; j++ {
				c := 2 * math.Cos(bin(freqs[j], rate, block))
				q1[j], q2[j] = c*q1[j]-q2[j]+real(x[t]), q1[j]
				p1[j], p2[j] = c*p1[j]-p2[j]+imag(x[t]), p1[j]
			}
		}
		x = x[m:]
	}
	mag, c := make([]float64, n), make([]complex128, n)
	for j := range mag {
		w := bin(freqs[j], rate, block)
		re := q1[j]*math.Cos(w) - q2[j] - p1[j]*math.Sin(w)
		im := q1[j]*math.Sin(w) + p1[j]*math.Cos(w) - p2[j]
		mag[j] = re*re + im*im
		c[j] = complex(re, im)
	}
	return mag, c
}
