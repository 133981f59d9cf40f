package spec

import "math"

func SDFT(k, n int, window []float64, x, y []complex128) {
	Require(n > 0 && 0 <= k && k < n && len(window) <= n && len(y) >= len(x))
	bins := len(window)
	if bins == 0 {
		bins = 1
	}
	s := make([]complex128, bins)
	for t, v := range x {
		var old complex128
		if t >= n {
			old = x[t-n]
		}
		var sum complex128
		for i := 0; i < bins; i++ {
			m := k - bins/2 + i
			if m < 0 {
				m += n
			} else if m >= n {
				m -= n
			}
			a := 2 * math.Pi * float64(m) / float64(n)
			s[i] = (s[i] + v - old) * complex(math.Cos(a), math.Sin(a))
			w := 1.0
			if len(window) > 0 {
				w = window[i]
			}
			sum += complex(w*real(s[i]), w*imag(s[i]))
		}
		y[t] = sum
	}
}

func SDFT32(k, n int, window []float32, x, y []complex64) {
	Require(n > 0 && 0 <= k && k < n && len(window) <= n && len(y) >= len(x))
	bins := len(window)
	if bins == 0 {
		bins = 1
	}
	s := make([]complex64, bins)
	for t, v := range x {
		var old complex64
		if t >= n {
			old = x[t-n]
		}
		var sum complex64
		for i := 0; i < bins; i++ {
			m := k - bins/2 + i
			if m < 0 {
				m += n
			} else if m >= n {
				m -= n
			}
			a := 2 * math.Pi * float64(m) / float64(n)
			s[i] = (s[i] + v - old) * complex(float32(math.Cos(a)), float32(math.Sin(a)))
			w := float32(1)
			if len(window) > 0 {
				w = window[i]
			}
			sum += complex(w*real(s[i]), w*imag(s[i]))
		}
		y[t] = sum
	}
}
