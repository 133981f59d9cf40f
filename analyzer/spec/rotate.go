package spec

// Sample k times j to the power k.
func Rotate90(s []complex64) []complex64 {
	for k := 0; k < len(s); k++ {
		re, im := real(s[k]), imag(s[k])
		if k%4 == 1 {
			s[k] = complex(-im, re)
		} else if k%4 == 2 {
			s[k] = complex(-re, -im)
		} else if k%4 == 3 {
			s[k] = complex(im, -re)
		}
	}
	return s
}

func I32Rotate90(s []int32) []int32 {
	for k := 0; k < len(s)/2; k++ {
		re, im := s[2*k], s[2*k+1]
		if k%4 == 1 {
			s[2*k], s[2*k+1] = -im, re
		} else if k%4 == 2 {
			s[2*k], s[2*k+1] = -re, -im
		} else if k%4 == 3 {
			s[2*k], s[2*k+1] = im, -re
		}
	}
	return s
}
