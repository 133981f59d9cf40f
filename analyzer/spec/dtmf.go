package spec

import "math"

// strongest: the first index of the largest positive magnitude, and that
// magnitude; 0 and 0 when there is none.
func strongest(freqs []uint64, rate, block int, x, w []float32, n int) (int, float32) {
	q1, q2 := make([]float64, len(freqs)), make([]float64, len(freqs))
	for t := 0; t < n; t++ {
		v := float64(x[t] * w[t])
		for j := range freqs {
			q1[j], q2[j] = 2*math.Cos(bin(freqs[j], rate, block))*q1[j]-q2[j]+v, q1[j]
		}
	}
	best, at := float32(0), 0
	for j := range freqs {
		m := float32(q1[j]*q1[j] + q2[j]*q2[j] - 2*math.Cos(bin(freqs[j], rate, block))*q1[j]*q2[j])
		if m > best {
			best, at = m, j
		}
	}
	return at, best
}

func dtmf(low, high []uint64, rate, block int, w, x []float32, cuts []int, key []int, mag []float32) {
	for i, m := range cuts {
		n := m
		if n > block {
			n = block
		}
		r, a := strongest(low, rate, block, x, w, n)
		c, b := strongest(high, rate, block, x, w, n)
		key[i] = r*len(high) + c
		if b < a {
			a = b
		}
		mag[i] = a
		x = x[m:]
	}
}

func DTMF(low, high []uint64, rate, block int, x []float32, cuts []int, key []int, mag []float32) {
	Require(rate > 0 && block > 0)
	w := make([]float32, block)
	HammingWindowF32(w)
	dtmf(low, high, rate, block, w, x, cuts, key, mag)
}

func DTMFWindow(low, high []uint64, rate, block int, win []float32, x []float32, cuts []int, key []int, mag []float32) {
	Require(rate > 0 && block > 0)
	w := make([]float32, block)
	copy(w, win)
	dtmf(low, high, rate, block, w, x, cuts, key, mag)
}

func DTMFTables() ([]rune, []uint64, []uint64) {
	return []rune{
			'1', '2', '3', 'A',
			'4', '5', '6', 'B',
			'7', '8', '9', 'C',
			'*', '0', '#', 'D',
		},
		[]uint64{697, 770, 852, 941}, []uint64{1209, 1336, 1477, 1633}
}
