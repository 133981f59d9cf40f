package spec

import "math"

func lutAngle(t int) int {
	return int(math.Atan(float64(t)/256) / math.Pi * 16384)
}

// Atan2LUT is atan(|y/x|), the ratio cut to 1/256, in units of pi/2^14, moved
// into the quadrant of (x, y); beyond the table it is a right angle.
func Atan2LUT(y, x int) int {
	if x == 0 {
		if y == 0 {
			return 0
		}
		if y > 0 {
			return 8192
		}
		return -8192
	}
	t := y * 256 / x
	if t == 0 {
		if x > 0 {
			return 0
		}
		if y < 0 {
			return -16384
		}
		return 16384
	}
	if t >= 131072 || t <= -131072 {
		if y > 0 {
			return 8192
		}
		return -8192
	}
	if t > 0 {
		if y > 0 {
			return lutAngle(t)
		}
		return lutAngle(t) - 16384
	}
	if y > 0 {
		return 16384 - lutAngle(-t)
	}
	return -lutAngle(-t)
}

// FastAtan2Fixed is linear in (|x|-|y|)/(|x|+|y|), in units of pi/2^14.
func FastAtan2Fixed(y, x int) int {
	if x == 0 && y == 0 {
		return 0
	}
	a := y
	if y < 0 {
		a = -y
	}
	var t int
	if x < 0 {
		t = 12288 - 4096*(x+a)/(a-x)
	} else {
		t = 4096 - 4096*(x-a)/(x+a)
	}
	if y < 0 {
		return -t
	}
	return t
}
