package spec

func cpuid(a, c uint32) (eax, ebx, ecx, edx uint32)
func xgetbv() (eax, edx uint32)

// CPU lists the features in alphabetical order: the CPUID bits of the Intel
// and AMD manuals, and for VEX instructions the operating system's support.
func CPU() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	max, _, _, _ := cpuid(0, 0)
	if max < 1 {
		return
	}
	_, _, c, d := cpuid(1, 0)
	sse3 = c>>0&1 == 1
	pclmulqdq = c>>1&1 == 1
	ssse3 = c>>9&1 == 1
	sse41 = c>>19&1 == 1
	sse42 = c>>20&1 == 1
	popcnt = c>>23&1 == 1
	aes = c>>25&1 == 1
	osxsave = c>>27&1 == 1
	sse2 = d>>26&1 == 1
	fma = c>>12&1 == 1 && osxsave
	ymm := false
	if osxsave {
		a, _ := xgetbv()
		ymm = a>>1&3 == 3
	}
	avx = c>>28&1 == 1 && ymm
	if max < 7 {
		return
	}
	_, b, _, _ := cpuid(7, 0)
	bmi1 = b>>3&1 == 1
	avx2 = b>>5&1 == 1 && ymm
	bmi2 = b>>8&1 == 1
	erms = b>>9&1 == 1
	adx = b>>19&1 == 1
	return
}

// CPUOption: switching one option off clears that feature, except sse2, which
// amd64 requires; switching one on changes nothing.
func CPUOption(name string, on bool) (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 = CPU()
	off := func(n string, v bool) bool { return v && (on || name != n) }
	return off("adx", adx), off("aes", aes), off("avx", avx), off("avx2", avx2), off("bmi1", bmi1), off("bmi2", bmi2), off("erms", erms), off("fma", fma), osxsave,
		off("pclmulqdq", pclmulqdq), off("popcnt", popcnt), sse2, off("sse3", sse3), off("ssse3", ssse3), off("sse41", sse41), off("sse42", sse42)
}

// CPUAllOff: every feature but those without option and the required one.
func CPUAllOff() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	_, _, _, _, _, _, _, _, osxsave, _, _, sse2, _, _, _, _ = CPU()
	return
}

func CPUNoAVX2() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("avx2", false)
}

func CPUOff_adx() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("adx", false)
}

func CPUOff_aes() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("aes", false)
}

func CPUOff_avx() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("avx", false)
}

func CPUOff_avx2() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("avx2", false)
}

func CPUOff_bmi1() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("bmi1", false)
}

func CPUOff_bmi2() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("bmi2", false)
}

func CPUOff_erms() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("erms", false)
}

func CPUOff_fma() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("fma", false)
}

func CPUOff_pclmulqdq() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("pclmulqdq", false)
}

func CPUOff_popcnt() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("popcnt", false)
}

func CPUOff_sse2() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("sse2", false)
}

func CPUOff_sse3() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("sse3", false)
}

func CPUOff_ssse3() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("ssse3", false)
}

func CPUOff_sse41() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("sse41", false)
}

func CPUOff_sse42() (adx, aes, avx, avx2, bmi1, bmi2, erms, fma, osxsave, pclmulqdq, popcnt, sse2, sse3, ssse3, sse41, sse42 bool) {
	return CPUOption("sse42", false)
}
