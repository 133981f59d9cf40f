package spec

import "math"

// FastAtan2 is the package's fast arctangent: cubic in (|x|-|y|)/(|x|+|y|).
func FastAtan2(y, x float32) float32 {
	if x == 0 && y == 0 {
		return 0
	}
	if x == 0 {
		if y > 0 {
			return math.Pi / 2
		}
		return -math.Pi / 2
	}
	a := y
	if y < 0 {
		a = -y
	}
	a += 1e-20
	var r, base float32
	if x < 0 {
		r = (x + a) / (a - x)
		base = 3 * math.Pi / 4
	} else {
		r = (x - a) / (x + a)
		base = math.Pi / 4
	}
	t := base - 0.9817*r + 0.1963*r*r*r
	if y < 0 {
		return -t
	}
	return t
}

// FastAtan2_2 is the rational approximation z/(1+0.28 z^2), reflected outside
// |z| < 1 and shifted into the quadrant.
func FastAtan2_2(y, x float32) float32 {
	if x == 0 {
		if y > 0 {
			return math.Pi / 2
		}
		if y < 0 {
			return -math.Pi / 2
		}
		return 0
	}
	z := y / x
	if z*z < 1 {
		t := z / (1 + 0.28*z*z)
		if x < 0 {
			if y < 0 {
				return t - math.Pi
			}
			return t + math.Pi
		}
		return t
	}
	t := math.Pi/2 - z/(z*z+0.28)
	if y < 0 {
		return t - math.Pi
	}
	return t
}
