package spec

import "math"

func n2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func Ui8toi16(input []byte, output []int16) {
	for i := 0; i < n2(len(input), len(output)); i++ {
		output[i] = int16(int(input[i])-128)*256 + int16(input[i]^128)
	}
}

func Ui8toi16b(input, output []byte) {
	for i := 0; i < n2(len(input), len(output)/2); i++ {
		output[2*i] = input[i] ^ 128
		output[2*i+1] = input[i] ^ 128
	}
}

func Ui8tof32(input []byte, output []float32) {
	for i := 0; i < n2(len(input), len(output)); i++ {
		output[i] = float32(int(input[i]) - 128)
	}
}

func I8tof32(input []byte, output []float32) {
	for i := 0; i < n2(len(input), len(output)); i++ {
		output[i] = float32(int8(input[i]))
	}
}

func Ui8toc64(input []byte, output []complex64) {
	for i := 0; i < n2(len(input)/2, len(output)); i++ {
		output[i] = complex(float32(int(input[2*i])-128), float32(int(input[2*i+1])-128))
	}
}

func I8toc64(input []int8, output []complex64) {
	for i := 0; i < n2(len(input)/2, len(output)); i++ {
		output[i] = complex(float32(input[2*i]), float32(input[2*i+1]))
	}
}

func C64toi8(input []complex64, output []int8) {
	for i := 0; i < n2(len(input), len(output)/2); i++ {
		output[2*i] = int8(real(input[i]))
		output[2*i+1] = int8(imag(input[i]))
	}
}

func F32toi16(input []float32, output []int16, scale float32) {
	for i := 0; i < n2(len(input), len(output)); i++ {
		output[i] = int16(input[i] * scale)
	}
}

func F32toi16ble(input []float32, output []byte, scale float32) {
	for i := 0; i < n2(len(input), len(output)/2); i++ {
		v := int16(input[i] * scale)
		output[2*i] = byte(v)
		output[2*i+1] = byte(uint16(v) >> 8)
	}
}

func I16ToBLE(input []int16, output []byte) {
	for i := 0; i < n2(len(input), len(output)/2); i++ {
		output[2*i] = byte(input[i])
		output[2*i+1] = byte(uint16(input[i]) >> 8)
	}
}

func I16bleToF64(input []byte, output []float64, scale float64) {
	for i := 0; i < n2(len(input)/2, len(output)); i++ {
		output[i] = float64(int16(uint16(input[2*i])|uint16(input[2*i+1])<<8)) * scale
	}
}

func I16bleToF32(input []byte, output []float32, scale float32) {
	for i := 0; i < n2(len(input)/2, len(output)); i++ {
		output[i] = float32(int16(uint16(input[2*i])|uint16(input[2*i+1])<<8)) * scale
	}
}

func I32bleToF32(input []byte, output []float32, scale float32) {
	for i := 0; i < n2(len(input)/4, len(output)); i++ {
		u := uint32(input[4*i]) | uint32(input[4*i+1])<<8 | uint32(input[4*i+2])<<16 | uint32(input[4*i+3])<<24
		output[i] = float32(int32(u)) * scale
	}
}

func F32Tof32ble(input []float32, output []byte) {
	for i := 0; i < n2(len(input), len(output)/4); i++ {
		u := math.Float32bits(input[i])
		output[4*i] = byte(u)
		output[4*i+1] = byte(u >> 8)
		output[4*i+2] = byte(u >> 16)
		output[4*i+3] = byte(u >> 24)
	}
}

func VMulC64xF32(input, output []complex64, mul []float32) {
	for i := 0; i < n2(n2(len(input), len(output)), len(mul)); i++ {
		output[i] = complex(real(input[i])*mul[i], imag(input[i])*mul[i])
	}
}

func VMulC64(input, output, mul []complex64) {
	for i := 0; i < n2(n2(len(input), len(output)), len(mul)); i++ {
		output[i] = input[i] * mul[i]
	}
}

func VAddF32(input, output []float32) {
	for i := 0; i < n2(len(input), len(output)); i++ {
		output[i] = output[i] + input[i]
	}
}

func VAddC64(input, output []complex64) {
	for i := 0; i < n2(len(input), len(output)); i++ {
		output[i] = output[i] + input[i]
	}
}

func VScaleF32(input, output []float32, scale float32) {
	for i := 0; i < n2(len(input), len(output)); i++ {
		output[i] = input[i] * scale
	}
}

func VScaleC64(input, output []complex64, scale float32) {
	for i := 0; i < n2(len(input), len(output)); i++ {
		output[i] = complex(real(input[i])*scale, imag(input[i])*scale)
	}
}

func VAbsC64(input []complex64, output []float32) {
	for i := 0; i < n2(len(input), len(output)); i++ {
		re, im := real(input[i]), imag(input[i])
		output[i] = float32(math.Sqrt(float64(re*re + im*im)))
	}
}

func VMaxF32(input []float32) float32 {
	m := float32(math.Inf(-1))
	for _, v := range input {
		m = max(m, v)
	}
	return m
}

func VMinF32(input []float32) float32 {
	m := float32(math.Inf(1))
	for _, v := range input {
		m = min(m, v)
	}
	return m
}

func Conj32(x complex64) complex64 { return complex(real(x), -imag(x)) }

// The assembly of some kernels is compared over the bytes or the parts of the
// numbers it stores.

func Ui8toi16Bytes(input, output []byte) {
	for i := 0; i < n2(len(input), len(output)/2); i++ {
		output[2*i] = input[i] ^ 128
		output[2*i+1] = input[i] ^ 128
	}
}

func Ui8toc64Parts(input []byte, output []float32) {
	for i := 0; i < n2(len(input)/2, len(output)/2); i++ {
		output[2*i] = float32(int(input[2*i]) - 128)
		output[2*i+1] = float32(int(input[2*i+1]) - 128)
	}
}
