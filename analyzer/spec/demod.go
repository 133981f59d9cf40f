package spec

import "math"

func PolarDiscriminator(a, b complex128) float64 {
	re := real(a)*real(b) + imag(a)*imag(b)
	im := imag(a)*real(b) - real(a)*imag(b)
	return math.Atan2(im, re)
}

func PolarDiscriminator32(a, b complex64) float32 {
	re := real(a)*real(b) + imag(a)*imag(b)
	im := imag(a)*real(b) - real(a)*imag(b)
	return FastAtan2(im, re)
}

func FastPhase32(x complex64) float32 { return FastAtan2(imag(x), real(x)) }
func Phase32(x complex64) float32     { return float32(math.Atan2(float64(imag(x)), float64(real(x)))) }
