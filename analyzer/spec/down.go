package spec

// DownC emits the sum of every D consecutive inputs; the last group carries over.
func DownC(d int, x []complex64, cuts []int, out [][]complex64) {
	Require(d >= 1)
	var re, im float32
	have := 0
	for i, n := range cuts {
		m := 0
		for j := 0; j < n; j++ {
			re += real(x[j])
			im += imag(x[j])
			have++
			if have >= d {
				x[m] = complex(re, im)
				m++
				re, im = 0, 0
				have = 0
			}
		}
		out[i] = x[:m]
		x = x[n:]
	}
}

// DownR emits sum*slow/fast every time the phase, advanced by slow per input,
// reaches fast.
func DownR(fast, slow int, x []float32, cuts []int, out [][]float32) {
	Require(fast >= slow)
	Require(slow >= 1)
	var sum float32
	phase := 0
	for i, n := range cuts {
		m := 0
		for j := 0; j < n; j++ {
			sum += x[j]
			phase += slow
			if phase >= fast {
				x[m] = sum * float32(slow) / float32(fast)
				m++
				phase -= fast
				sum = 0
			}
		}
		out[i] = x[:m]
		x = x[n:]
	}
}
