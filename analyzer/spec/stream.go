package spec

// y[n] = (sum b[i] x[n-i] - sum a[i] y[n-i]) / a[0], history newest first.
func IIR(b, a, x, y []float64, cuts []int) {
	Require(len(a) == len(b))
	Require(len(a) > 0)
	xs := make([]float64, len(b)-1)
	ys := make([]float64, len(b)-1)
	for _, n := range cuts {
		for i := 0; i < n; i++ {
			s := x[i] * b[0] / a[0]
			for j := 0; j < len(xs); j++ {
				s += xs[j]*b[j+1]/a[0] - ys[j]*a[j+1]/a[0]
			}
			for j := len(xs) - 1; j > 0; j-- {
				xs[j] = xs[j-1]
				ys[j] = ys[j-1]
			}
			if len(xs) > 0 {
				xs[0] = x[i]
				ys[0] = s
			}
			y[i] = s
		}
		x, y = x[n:], y[n:]
	}
}

func BiQuad(b0, b1, b2, a0, a1, a2 float64, x, y []float64, cuts []int) {
	var x1, x2, y1, y2 float64
	for _, n := range cuts {
		for i := 0; i < n; i++ {
			s := (b0*x[i] + b1*x1 + b2*x2 - a1*y1 - a2*y2) / a0
			x1, x2 = x[i], x1
			y1, y2 = s, y1
			y[i] = s
		}
		x, y = x[n:], y[n:]
	}
}

func BiQuadF32(b0, b1, b2, a0, a1, a2 float64, x, y []float32, cuts []int) {
	var x1, x2, y1, y2 float64
	for _, n := range cuts {
		for i := 0; i < n; i++ {
			xi := float64(x[i])
			s := (b0*xi + b1*x1 + b2*x2 - a1*y1 - a2*y2) / a0
			x1, x2 = xi, x1
			y1, y2 = s, y1
			y[i] = float32(s)
		}
		x, y = x[n:], y[n:]
	}
}

func DC(a float64, x, y []float64, cuts []int) {
	var w float64
	for _, n := range cuts {
		for i := 0; i < n; i++ {
			v := x[i] + a*w
			y[i] = v - w
			w = v
		}
		x, y = x[n:], y[n:]
	}
}

func ComplexIIR32(b, a []float32, x, y []complex64, cuts []int) {
	Require(len(a) == len(b))
	Require(len(a) > 0)
	xs := make([]complex64, len(b)-1)
	ys := make([]complex64, len(b)-1)
	for _, n := range cuts {
		for i := 0; i < n; i++ {
			re := real(x[i]) * b[0] / a[0]
			im := imag(x[i]) * b[0] / a[0]
			for j := 0; j < len(xs); j++ {
				re += real(xs[j])*b[j+1]/a[0] - real(ys[j])*a[j+1]/a[0]
				im += imag(xs[j])*b[j+1]/a[0] - imag(ys[j])*a[j+1]/a[0]
			}
			for j := len(xs) - 1; j > 0; j-- {
				xs[j] = xs[j-1]
				ys[j] = ys[j-1]
			}
			if len(xs) > 0 {
				xs[0] = x[i]
				ys[0] = complex(re, im)
			}
			y[i] = complex(re, im)
		}
		x, y = x[n:], y[n:]
	}
}

func ComplexIIR(b, a []float64, x, y []complex128, cuts []int) {
	Require(len(a) == len(b))
	Require(len(a) > 0)
	xs := make([]complex128, len(b)-1)
	ys := make([]complex128, len(b)-1)
	for _, n := range cuts {
		for i := 0; i < n; i++ {
			re := real(x[i]) * b[0] / a[0]
			im := imag(x[i]) * b[0] / a[0]
			for j := 0; j < len(xs); j++ {
				re += real(xs[j])*b[j+1]/a[0] - real(ys[j])*a[j+1]/a[0]
				im += imag(xs[j])*b[j+1]/a[0] - imag(ys[j])*a[j+1]/a[0]
			}
			for j := len(xs) - 1; j > 0; j-- {
				xs[j] = xs[j-1]
				ys[j] = ys[j-1]
			}
			if len(xs) > 0 {
				xs[0] = x[i]
				ys[0] = complex(re, im)
			}
			y[i] = complex(re, im)
		}
		x, y = x[n:], y[n:]
	}
}

func DC32(a float32, x, y []float32, cuts []int) {
	var w float32
	for _, n := range cuts {
		for i := 0; i < n; i++ {
			v := x[i] + a*w
			y[i] = v - w
			w = v
		}
		x, y = x[n:], y[n:]
	}
}

// DCMix: blocks with single samples in between.
func DCMix(a float64, x, y []float64, cuts []int) {
	var w float64
	for _, n := range cuts {
		for i := 0; i < n; i++ {
			v := x[i] + a*w
			y[i] = v - w
			w = v
		}
		v := x[n] + a*w
		y[n] = v - w
		w = v
		x, y = x[n+1:], y[n+1:]
	}
}

func DCMix32(a float32, x, y []float32, cuts []int) {
	var w float32
	for _, n := range cuts {
		for i := 0; i < n; i++ {
			v := x[i] + a*w
			y[i] = v - w
			w = v
		}
		v := x[n] + a*w
		y[n] = v - w
		w = v
		x, y = x[n+1:], y[n+1:]
	}
}

// FM: the fast arctangent of x[n]*conj(x[n-1]), imaginary part first.
func FM(x []complex64, y []float32, counts, cuts []int) {
	var p complex64
	for i, n := range cuts {
		for j := 0; j < n; j++ {
			a, b := real(x[j]), imag(x[j])
			c, d := real(p), imag(p)
			y[j] = FastAtan2(b*c-a*d, a*c+b*d)
			p = x[j]
		}
		counts[i] = n
		x, y = x[n:], y[n:]
	}
}
