# n(name, checks, (file, old, new), ...)
n('biquad-locals','C08',(B,'''	for i, s := range input {
		newSample := b0a0*s + b1a0*f.prevIn[0] + b2a0*f.prevIn[1] - a1a0*f.prevOut[0] - a2a0*f.prevOut[1]
		f.prevOut[1] = f.prevOut[0]
		f.prevOut[0] = newSample
		f.prevIn[1] = f.prevIn[0]
		f.prevIn[0] = s
		output[i] = newSample
	}
''','''	x1, x2 := f.prevIn[0], f.prevIn[1]
	y1, y2 := f.prevOut[0], f.prevOut[1]
	for i := 0; i < len(input); i++ {
		x := input[i]
		y := b0a0*x + b1a0*x1 + b2a0*x2 - a1a0*y1 - a2a0*y2
		x1, x2 = x, x1
		y1, y2 = y, y1
		output[i] = y
	}
	f.prevIn = [2]float64{x1, x2}
	f.prevOut = [2]float64{y1, y2}
'''))
n('biquad-design-helper','C09',(B,'''// H(s) = 1 / (s^2 + s/Q + 1)
func NewLow''','''func angles(sampleRate, freq, q float64) (cosW0, alpha float64) {
	w0 := 2 * math.Pi * freq / sampleRate
	s, c := math.Sincos(w0)
	return c, s / (2 * q)
}

// H(s) = 1 / (s^2 + s/Q + 1)
func NewLow'''),(B,'''	w0 := 2 * math.Pi * cutoffFreq / sampleRate
	sinW0 := math.Sin(w0)
	cosW0 := math.Cos(w0)
	alpha := sinW0 / (2 * q)
	return &BiQuadFilter{
		B0: (1 - cosW0) / 2,
		B1: 1 - cosW0,
		B2: (1 - cosW0) / 2,''','''	cosW0, alpha := angles(sampleRate, cutoffFreq, q)
	b1 := 1 - cosW0
	half := b1 / 2
	return &BiQuadFilter{
		B0: half,
		B1: b1,
		B2: half,'''))
n('biquad-rename','C08 C09',(B,re.compile(r'prevIn\b'),'histX'),(B,re.compile(r'prevOut\b'),'histY'))
n('iir-helper','C07',(F,'''		for j, p := range f.pIn {
			sum += f.bCoef[j+1]*p - f.aCoef[j+1]*f.pOut[j]
		}
		for i := len(f.pIn) - 1; i > 0; i-- {
			f.pIn[i] = f.pIn[i-1]
			f.pOut[i] = f.pOut[i-1]
		}
		if len(f.pIn) > 0 {
			f.pIn[0] = s
			f.pOut[0] = sum
		}
		output[i] = sum
	}
}

func (f *ComplexIIRFilter32)''','''		for j, p := range f.pIn {
			sum += f.bCoef[j+1] * p
			sum -= f.aCoef[j+1] * f.pOut[j]
		}
		shift(f.pIn, s)
		shift(f.pOut, sum)
		output[i] = sum
	}
}

func shift(line []float64, v float64) {
	if len(line) == 0 {
		return
	}
	copy(line[1:], line)
	line[0] = v
}

func (f *ComplexIIRFilter32)'''))
n('iir-order','C07',(F,'''	bCoef, aCoef = normalizeCoef(bCoef, aCoef)
	return &IIRFilter{
		bCoef: bCoef,
		aCoef: aCoef,
		pIn:   make([]float64, len(bCoef)-1),
		pOut:  make([]float64, len(bCoef)-1),
	}''','''	order := len(aCoef) - 1
	f := new(IIRFilter)
	f.pOut = make([]float64, order)
	f.pIn = make([]float64, order)
	f.bCoef, f.aCoef = normalizeCoef(bCoef, aCoef)
	return f'''))
n('iir-check','C07',(F,'''	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
	}
	bCoef, aCoef = normalizeCoef(bCoef, aCoef)
	return &IIRFilter{''','''	checkLens(len(bCoef), len(aCoef))
	bCoef, aCoef = normalizeCoef(bCoef, aCoef)
	return &IIRFilter{'''),(F,'''// normalizeCoef returns''','''func checkLens(nb, na int) {
	if nb == 0 {
		panic("IIR filter must have at least one coefficient")
	}
	if nb != na {
		panic("IIR filter must have len(b)==len(a)")
	}
}

// normalizeCoef returns'''))
n('iir-shift-up','C07',(F,'''		for i := len(f.pIn) - 1; i > 0; i-- {
			f.pIn[i] = f.pIn[i-1]
			f.pOut[i] = f.pOut[i-1]
		}
		if len(f.pIn) > 0 {
			f.pIn[0] = s
			f.pOut[0] = sum
		}
		output[i] = sum
	}
}

func (f *ComplexIIRFilter) Filter''','''		x, y := s, sum
		for k := range f.pIn {
			f.pIn[k], x = x, f.pIn[k]
			f.pOut[k], y = y, f.pOut[k]
		}
		output[i] = sum
	}
}

func (f *ComplexIIRFilter) Filter'''))
n('dc-field','C10',(F,'''	lw := f.w
	for i, x := range input {
		w := x + f.a*lw
		output[i] = w - lw
		lw = w''','''	a, lw := f.a, f.w
	n := len(input)
	for i := 0; i < n; i++ {
		w := a*lw + input[i]
		output[i] = w - lw
		lw = w'''))
n('down-local','C13',(D,'''	for _, v := range samples {
		fi.now += v
		fi.prevIndex++
		if fi.prevIndex < fi.Downsample {
			continue
		}
		samples[i2] = fi.now // complex(real(fi.now)*outputScale, imag(fi.now)*outputScale)
		fi.prevIndex = 0
		fi.now = 0
		i2++
	}
''','''	now, cnt := fi.now, fi.prevIndex
	for k := range samples {
		now += samples[k]
		cnt++
		if cnt >= fi.Downsample {
			samples[i2] = now
			i2++
			now, cnt = 0, 0
		}
	}
	fi.now, fi.prevIndex = now, cnt
'''))
n('down-append','C13',(D,'''	i2 := 0
	// outputScale := 1.0 / float32(fi.Downsample)
	for _, v := range samples {
		fi.now += v
		fi.prevIndex++
		if fi.prevIndex < fi.Downsample {
			continue
		}
		samples[i2] = fi.now // complex(real(fi.now)*outputScale, imag(fi.now)*outputScale)
		fi.prevIndex = 0
		fi.now = 0
		i2++
	}
	return samples[:i2]''','''	out := samples[:0]
	for _, v := range samples {
		fi.now += v
		fi.prevIndex++
		if fi.prevIndex >= fi.Downsample {
			out = append(out, fi.now)
			fi.prevIndex = 0
			fi.now = 0
		}
	}
	return out'''))
n('down-rat','C13',(D,'''		if fi.prevIndex < fi.Fast {
			continue
		}
		samples[i2] = fi.sum * fastSlowRatio
		i2++
		fi.prevIndex -= fi.Fast
		fi.sum = 0.0
''','''		if fi.prevIndex >= fi.Fast {
			fi.emit(samples, i2, fastSlowRatio)
			i2++
		}
'''),(D,'''type LowPassDownsampleRationalFilter struct {''','''func (fi *LowPassDownsampleRationalFilter) emit(out []float32, i int, ratio float32) {
	out[i] = ratio * fi.sum
	fi.sum = 0
	fi.prevIndex -= fi.Fast
}

type LowPassDownsampleRationalFilter struct {'''))
n('goertzel-bin-helper','C15 C23',(G,'''	freq := make([]*goertzel, len(targetFreqs))
	for i, f := range targetFreqs {
		// k is the closest bucket for the frequency
		k := uint64(0.5 + float64(uint64(blockSize)*f)/float64(sampleRate))
		w := 2.0 * math.Pi * float64(k) / float64(blockSize)
		sin := math.Sin(w)
		cos := math.Cos(w)
		freq[i] = &goertzel{
			coeff: 2.0 * cos,
			cos:   cos,
			sin:   sin,
		}
	}
	return &Goertzel32{
		freq: freq,''','''	return &Goertzel32{
		freq: newBins(targetFreqs, sampleRate, blockSize),'''),(G,'''func NewGoertzel32(''','''func newBins(targetFreqs []uint64, sampleRate, blockSize int) []*goertzel {
	var bins []*goertzel
	for _, f := range targetFreqs {
		bins = append(bins, newBin(f, sampleRate, blockSize))
	}
	return bins
}

func newBin(f uint64, sampleRate, blockSize int) *goertzel {
	k := uint64(0.5 + float64(uint64(blockSize)*f)/float64(sampleRate))
	sin, cos := math.Sincos(2.0 * math.Pi * float64(k) / float64(blockSize))
	return &goertzel{coeff: 2.0 * cos, cos: cos, sin: sin}
}

func NewGoertzel32('''))
n('goertzel-rename','C15 C23',(G,re.compile(r'\bgoertzel\b'),'bin'),(G,re.compile(r'\bq1i\b'),'p1'),(G,re.compile(r'\bq2i\b'),'p2'))
n('goertzel-swap-loops','C15',(G,'''	for _, samp := range samples {
		for _, freq := range g.freq {
			q0 := freq.coeff*freq.q1 - freq.q2 + samp
			freq.q2 = freq.q1
			freq.q1 = q0
		}
	}''','''	for _, freq := range g.freq {
		q1, q2 := freq.q1, freq.q2
		for _, samp := range samples {
			q1, q2 = freq.coeff*q1-q2+samp, q1
		}
		freq.q1, freq.q2 = q1, q2
	}'''))
n('goertzel-step','C15',(G,'''			q0 := freq.coeff*freq.q1 - freq.q2 + real(samp)
			freq.q2 = freq.q1
			freq.q1 = q0
			q0 = freq.coeff*freq.q1i - freq.q2i + imag(samp)
			freq.q2i = freq.q1i
			freq.q1i = q0
''','''			freq.step(real(samp), imag(samp))
'''),(G,'''func NewGoertzel32(''','''func (g *goertzel) step(re, im float64) {
	g.q1, g.q2 = g.coeff*g.q1-g.q2+re, g.q1
	g.q1i, g.q2i = g.coeff*g.q1i-g.q2i+im, g.q1i
}

func NewGoertzel32('''))
n('goertzel-values','C15 C23',(G,re.compile(r'\*goertzel\b(?! \{)'),'goertzel'),(G,re.compile(r'&goertzel\{'),'goertzel{'),
 (G,re.compile(r'for _, freq := range g\.freq \{'),'for fi := range g.freq {\n\t\tfreq := &g.freq[fi]'))
n('demod-index','C12',(DM,'''	pre := fi.pre
	for i, inp := range input {
		// output[i] = PolarDiscriminator32(inp, pre)
		output[i] = FastAtan2(imag(inp)*real(pre)-real(inp)*imag(pre), real(inp)*real(pre)+imag(inp)*imag(pre))
		pre = inp
	}
	fi.pre = pre
	return len(input)''','''	n := len(input)
	for i := 0; i < n; i++ {
		output[i] = PolarDiscriminator32(input[i], fi.pre)
		fi.pre = input[i]
	}
	return n'''))
n('demod-last','C12',(DM,'''	pre := fi.pre
	for i, inp := range input {
		// output[i] = PolarDiscriminator32(inp, pre)
		output[i] = FastAtan2(imag(inp)*real(pre)-real(inp)*imag(pre), real(inp)*real(pre)+imag(inp)*imag(pre))
		pre = inp
	}
	fi.pre = pre
	return len(input)''','''	pre := fi.pre
	re, im := real(pre), imag(pre)
	for i, inp := range input {
		a, b := real(inp), imag(inp)
		output[i] = FastAtan2(b*re-a*im, a*re+b*im)
		re, im = a, b
	}
	if len(input) > 0 {
		fi.pre = input[len(input)-1]
	}
	return len(input)'''))
n('sdft-helper','C16',(S,'''		j := k - len(win)/2 + i
		if j < 0 {
			j += n
		} else if j >= n {
			j -= n
		}
		s.e[i] = cmplx.Exp(complex(0, 2*math.Pi*float64(j)/float64(n)))''','''		s.e[i] = twiddle(wrapBin(k-len(win)/2+i, n), n)'''),(S,'''// SDFT32 is''','''func wrapBin(j, n int) int {
	switch {
	case j < 0:
		return j + n
	case j >= n:
		return j - n
	}
	return j
}

func twiddle(j, n int) complex128 {
	return cmplx.Exp(complex(0, 2*math.Pi*float64(j)/float64(n)))
}

// SDFT32 is'''))
n('sdft-ring','C16',(S,'''	i := (sd.i + 1) % len(sd.x)
	x0 := sd.x[i]
	sd.x[i] = x
	sd.i = i
	xd := x - x0
	var sum complex128
	for i, w := range sd.w {
		s := (xd + sd.s[i]) * sd.e[i]
		sd.s[i] = s
		sum += w * s
	}''','''	i := sd.i + 1
	if i >= len(sd.x) {
		i = 0
	}
	xd := x - sd.x[i]
	sd.x[i], sd.i = x, i
	var sum complex128
	for b := range sd.s {
		sd.s[b] += xd
		sd.s[b] *= sd.e[b]
		sum += sd.s[b] * sd.w[b]
	}'''))
n('interp-neigh','C18',(I,'''	xi := int(math.Floor(x))

	var s [4]float64
	for i := -1; i <= 2; i++ {
		if j := xi + i; j >= 0 && j < len(samples) {
			s[i+1] = samples[j]
		}
	}

	x -= math.Floor(x)''','''	fl := math.Floor(x)
	var s [4]float64
	neighbours(s[:], samples, int(fl)-1)

	x -= fl'''),(I,'''// Hermite4p3o interpolates''','''func neighbours(dst, samples []float64, first int) {
	for i := range dst {
		j := first + i
		if j < 0 || j >= len(samples) {
			continue
		}
		dst[i] = samples[j]
	}
}

// Hermite4p3o interpolates'''))
n('interp-linear','C18',(I,'''	var samp float64
	low := math.Floor(x)
	lowInt := int(low)
	if lowInt < len(samples) {
		lowValue := samples[lowInt]
		var highValue float64
		if i := lowInt + 1; i >= len(samples) {
			highValue = 0
		} else {
			highValue = samples[i]
		}
		samp = lowValue + (x-low)*(highValue-lowValue)
	}
	return samp''','''	i := int(x)
	frac := x - float64(i)
	var next float64
	if i+1 < len(samples) {
		next = samples[i+1]
	}
	return samples[i]*(1-frac) + next*frac'''))
n('interp-sample','C18',(I,'''	var s [6]float32
	for i := -2; i <= 3; i++ {
		if j := xi + i; j >= 0 && j < len(samples) {
			s[middle+i] = float32(samples[j])
		}
	}
''','''	at := func(i int) float32 {
		if j := xi + i; 0 <= j && j < len(samples) {
			return samples[j]
		}
		return 0
	}
	s := [6]float32{at(-2), at(-1), at(0), at(1), at(2), at(3)}
'''))
n('conv-min','C02',(C,re.compile(r'	n := len\(output\)\n	if len\(input\) < n \{\n		n = len\(input\)\n	\}\n'),'	n := minLen(len(output), len(input))\n'),(C,'''// I8tof32 converts''','''func minLen(a, b int) int {
	if b < a {
		return b
	}
	return a
}

// I8tof32 converts'''))
n('conv-loop','C02',(C,'''	for i, v := range input[:n] {
		v -= 128
		v16 := int16((uint16(v) << 8) | uint16(v))
		output[i] = v16
	}''','''	for i := 0; i < n; i++ {
		output[i] = int16(input[i]^0x80) * 0x101
	}'''),(C,'''	for i, v := range input[:n] {
		output[i] = float32(int(v) - 128)
	}''','''	for i := range input {
		if i >= len(output) {
			break
		}
		output[i] = float32(input[i]) - 128
	}'''))
n('conv-le','C02',(C,'''		output[i*2] = byte(v & 0xff)
		output[i*2+1] = byte(v >> 8)
''','''		binary.LittleEndian.PutUint16(output[2*i:], uint16(v))
'''),(C,'''		output[i] = float32(int16(uint16(input[i*2])|(uint16(input[i*2+1])<<8))) * scale
''','''		output[i] = scale * float32(int16(binary.LittleEndian.Uint16(input[i*2:])))
'''),(C,'''		output[i*2] = uint8(v & 0xff)
		output[i*2+1] = uint8(v >> 8)
''','''		output[i*2+1], output[i*2] = uint8(v>>8), uint8(v)
'''))
n('conv-advance','C02',(C,'''	for i := 0; i < n; i++ {
		output[i] = complex(
			float32(int(input[i*2])-128),
			float32(int(input[i*2+1])-128),
		)
	}''','''	for o := range output[:n] {
		pair := input[2*o : 2*o+2]
		re, im := int(pair[0])-128, int(pair[1])-128
		output[o] = complex(float32(re), float32(im))
	}'''))
n('vec-helper','C03',(M,'''func VAddF32(input, output []float32) {
	n := len(input)
	if len(output) < n {
		n = len(output)
	}
	for i, v := range input[:n] {
		output[i] += v
	}''','''func VAddF32(input, output []float32) {
	if len(input) > len(output) {
		input = input[:len(output)]
	}
	for i, v := range input {
		output[i] = v + output[i]
	}'''),(M,'''	for i, v := range input[:n] {
		w := mul[i]
		output[i] = complex(real(v)*w, imag(v)*w)
	}''','''	input, output, mul = input[:n], output[:n], mul[:n]
	for i, w := range mul {
		output[i] = complex(w*real(input[i]), w*imag(input[i]))
	}'''))
n('vec-max','C04',(M,'''	max := float32(math.Inf(-1))
	for _, v := range input {
		if v > max {
			max = v
		}
	}
	return max''','''	if len(input) == 0 {
		return float32(math.Inf(-1))
	}
	max := input[0]
	for _, v := range input[1:] {
		if max < v {
			max = v
		}
	}
	return max'''))
n('rot-quad','C14',(U,'''	for i, s := range samples {
		switch i & 3 {
		case 1:
			samples[i] = complex(-imag(s), real(s))
		case 2:
			samples[i] = -s
		case 3:
			samples[i] = complex(imag(s), -real(s))
		}
	}''','''	for i := range samples {
		s := samples[i]
		if i&1 != 0 {
			s = complex(-imag(s), real(s))
		}
		if i%4 >= 2 {
			s = -s
		}
		samples[i] = s
	}'''))
n('win-helper','C17 C23',(W,'''		v := a[0]
		if len(a) > 1 {
			v -= a[1] * math.Cos(2*math.Pi*fn/nn)
		}
		if len(a) > 2 {
			v += a[2] * math.Cos(4*math.Pi*fn/nn)
		}
		if len(a) > 3 {
			v -= a[3] * math.Cos(6*math.Pi*fn/nn)
		}
		output[n] = float32(v)''','''		output[n] = float32(cosineSum(a, 2*math.Pi*fn/nn))'''),(W,'''func windowF32(''','''func cosineSum(a []float64, w float64) float64 {
	v := a[0]
	sign := -1.0
	for k := 1; k < len(a); k++ {
		v += sign * a[k] * math.Cos(float64(k)*w)
		sign = -sign
	}
	return v
}

func windowF32('''))
n('win-inline','C17',(W,'''	window(output, []float64{0.53836, 1 - 0.53836})''','''	last := len(output) - 1
	if last == 0 {
		output[0] = 1
		return
	}
	for i := range output {
		output[i] = 0.53836 - (1-0.53836)*math.Cos(2*math.Pi*float64(i)/float64(last))
	}'''))
n('win-hann','C17',(W,'''	for n := range output {
		output[n] = 0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1)))
	}''','''	step := 2 * math.Pi / float64(len(output)-1)
	for n := 0; n < len(output); n++ {
		output[n] = 0.5 - 0.5*math.Cos(step*float64(n))
	}'''))
n('dtmf-min','C23',(T,'''	if len(samples) > d.blockSize {
		samples = samples[:d.blockSize]
	}
	block := d.block[:len(samples)]
	for i, s := range samples {
		block[i] = s * d.w[i]
	}
	d.lowFreq.Reset()
	d.highFreq.Reset()
	d.lowFreq.Feed(block)
	d.highFreq.Feed(block)
	row, thresh1 := max(d.lowFreq.Magnitude())
	col, thresh2 := max(d.highFreq.Magnitude())
	if thresh2 < thresh1 {
		thresh1 = thresh2
	}
	return row*d.nHigh + col, thresh1''','''	block := d.windowed(samples)
	row, lo := strongest(d.lowFreq, block)
	col, hi := strongest(d.highFreq, block)
	key := row*d.nHigh + col
	if lo <= hi {
		return key, lo
	}
	return key, hi'''),(T,'''func max(''','''func (d *DTMF) windowed(samples []float32) []float32 {
	n := len(samples)
	if n > d.blockSize {
		n = d.blockSize
	}
	for i := 0; i < n; i++ {
		d.block[i] = d.w[i] * samples[i]
	}
	return d.block[:n]
}

func strongest(g *dsp.Goertzel32, block []float32) (int, float32) {
	g.Reset()
	g.Feed(block)
	return max(g.Magnitude())
}

func max('''))
n('dtmf-max','C23',(T,'''	lrg := float32(0.0)
	idx := 0
	for i, f := range val {
		if f > lrg {
			lrg = f
			idx = i
		}
	}
	return idx, lrg''','''	var best float32
	at := 0
	for i := 0; i < len(val); i++ {
		if best < val[i] {
			best, at = val[i], i
		}
	}
	return at, best'''))
AX='C24 C25 C26 C27 C28 C29 C30'
n('crc-helper',AX,(R,'''	for _, b := range buf {
		crc = (crc >> 8) ^ crcCcittTable[(crc^uint16(b))&0xff]
	}
	return (crc & 0xffff) == 0xf0b8''','''	for i := range buf {
		crc = crcUpdate(crc, buf[i])
	}
	return crc == 0xf0b8'''),(R,'''func checkCrcCcitt(''','''func crcUpdate(crc uint16, b byte) uint16 {
	return crcCcittTable[byte(crc)^b] ^ crc>>8
}

func checkCrcCcitt('''))
n('ax-addr',AX,(H,'''	i := 0
	for ; i < 6; i++ {
		buf[i] >>= 1
		if buf[i] == 0x20 {
			break
		}
	}
	return Address{Callsign: string(buf[:i]), SSID: int((buf[6] >> 1) & 0xf)}''','''	call := make([]byte, 0, 6)
	for _, b := range buf[:6] {
		c := b >> 1
		if c == ' ' {
			break
		}
		call = append(call, c)
	}
	return Address{Callsign: string(call), SSID: int(buf[6]>>1) & 0xf}'''))
n('ax-control',AX,(H,'''	controlField := buf[0]
	buf = buf[1:]

	// 4.2.1 & 6.2 Poll/Final bit
	frame.PollFinal = controlField&0x10 != 0

	if controlField&1 == 0 {
		// Info frame
		frame.Type = IFrame
		// 0  : 0
		// 1-3: N(S)
		// 4  : P
		// 5-7: N(R)
		frame.SendSeq = int((controlField >> 1) & 7)
		frame.RecvSeq = int((controlField >> 5) & 7)
	} else if controlField&2 != 0 {
		// Unnumbered frame
		frame.Type = UFrame
		// 4.3.3 Unnumbered Frame Control Fields
		frame.UnnumberedType = UnnumberedType(controlField & ^byte(0x10))
	} else {
		// Supervisory frame
		frame.Type = SFrame
		frame.SupervisoryType = SupervisoryType(controlField & 0x0f)
		frame.RecvSeq = int((controlField >> 5) & 7)
	}
	if len(buf) == 0 {
		return &frame
	}
''','''	frame.decodeControl(buf[0])
	buf = buf[1:]
	if len(buf) == 0 {
		return &frame
	}
'''),(H,'''func (ax *AX25) processFrame()''','''func (f *Frame) decodeControl(c byte) {
	f.PollFinal = c&0x10 != 0
	nr := int(c >> 5)
	switch c & 3 {
	case 0, 2:
		f.Type = IFrame
		f.SendSeq = int(c>>1) & 7
		f.RecvSeq = nr
	case 1:
		f.Type = SFrame
		f.SupervisoryType = SupervisoryType(c & 0x0f)
		f.RecvSeq = nr
	case 3:
		f.Type = UFrame
		f.UnnumberedType = UnnumberedType(c &^ 0x10)
	}
}

func (ax *AX25) processFrame()'''))
n('ax-flex',AX,(H,re.compile(r'		var dest \[\]byte\n		if i := \(buf\[2\].*?(?=		if dest != nil)',re.S),'''		var dest []byte
		chars := [6]byte{
			buf[2] >> 2,
			buf[2]<<4 | buf[3]>>4,
			buf[3]<<2 | buf[4]>>6,
			buf[4],
			buf[5] >> 2,
			buf[5]<<4 | buf[6]>>4,
		}
		for _, c := range chars {
			if c &= 0x3f; c != 0 {
				dest = append(dest, 0x20+c)
			}
		}
'''))
n('ax-feed',AX,(H,'''	ax.rxBits >>= 1
	if bit != 0 {
		ax.rxBits |= 0x80
	}
	ax.rxBitI++
	if ax.rxBitI == 8 {
		if len(ax.rxBuf) >= ax.maxBufferSize {
			ax.inFrame = false
			// TODO: return an error?
			return nil
		}
		ax.rxBuf = append(ax.rxBuf, ax.rxBits)
		ax.rxBits = 0
		ax.rxBitI = 0
	}
	return nil''','''	ax.pushBit(bit != 0)
	return nil'''),(H,'''// Return a frame when''','''func (ax *AX25) pushBit(one bool) {
	ax.rxBits >>= 1
	if one {
		ax.rxBits |= 0x80
	}
	ax.rxBitI++
	if ax.rxBitI < 8 {
		return
	}
	if len(ax.rxBuf) >= ax.maxBufferSize {
		ax.inFrame = false
		return
	}
	ax.rxBuf = append(ax.rxBuf, ax.rxBits)
	ax.resetBits()
}

func (ax *AX25) resetBits() {
	ax.rxBitI, ax.rxBits = 0, 0
}

// Return a frame when'''),(H,'''		ax.inFrame = true
		ax.rxBuf = ax.rxBuf[:0]
		ax.rxBits = 0
		ax.rxBitI = 0
		return frame''','''		ax.resetBits()
		ax.rxBuf = ax.rxBuf[:0]
		ax.inFrame = true
		return frame'''))
n('ax-rename',AX,(H,re.compile(r'\brxBits\b'),'octet'),(H,re.compile(r'\brxBitI\b'),'nbits'),(H,re.compile(r'\bbitstream\b'),'shift'),(H,re.compile(r'\brxBuf\b'),'body'))
n('ax-reorder',AX,(H,'''	if len(ax.rxBuf) < 10 {
		return nil
	}

	if !checkCrcCcitt(ax.rxBuf) {
		return nil
	}
''','''	if !checkCrcCcitt(ax.rxBuf) || len(ax.rxBuf) < 10 {
		return nil
	}
'''),(H,'''	buf := append([]byte(nil), ax.rxBuf[:len(ax.rxBuf)-2]...)
''','''	buf := make([]byte, len(ax.rxBuf)-2)
	copy(buf, ax.rxBuf)
'''))
n('ax-names','C30',(K,'''	switch t {
	case RR:
		return "RR"
	case RNR:
		return "RNR"
	case REJ:
		return "REJ"
	case SREJ:
		return "SREJ"
	}
	return fmt.Sprintf("%02x", int(t))''','''	if s, ok := supervisoryTypeName[t]; ok {
		return s
	}
	return fmt.Sprintf("%02x", byte(t))'''),(K,'''type UnnumberedType byte''','''var supervisoryTypeName = map[SupervisoryType]string{RR: "RR", RNR: "RNR", REJ: "REJ", SREJ: "SREJ"}

type UnnumberedType byte'''))
n('ax-reps',AX,(H,'''		o := 14
		for ; buf[o-1]&1 == 0 && len(buf)-o > 7; o += 7 {
			frame.Repeaters = append(frame.Repeaters, parseAddress(buf[o:]))
		}
		buf = buf[o:]''','''		last := buf[13]&1 != 0
		buf = buf[14:]
		for !last && len(buf) > 7 {
			last = buf[6]&1 != 0
			frame.Repeaters = append(frame.Repeaters, parseAddress(buf[:7]))
			buf = buf[7:]
		}'''))
BC='borip/client.go'; BP='borip/packet.go'; BCHK="C32"
n('bor-getfloat',BCHK,(BC,re.compile(r'''	res, err := bor\.command\("(FREQ|RATE|GAIN)"\)
	if err != nil \{
		return 0\.0, err
	\}
	if len\(res\) < 6 \{
		return 0\.0, ErrUnexpectedResponse
	\}
	return strconv\.ParseFloat\(res\[5:\], 64\)
'''),r'''	return bor.getFloat("\1")
'''),(BC,'''func (bor *BorIP) SetAntenna(''','''func (bor *BorIP) getFloat(cmd string) (float64, error) {
	res, err := bor.command(cmd)
	if err != nil {
		return 0, err
	}
	off := len(cmd) + 1
	if len(res) <= off {
		return 0, ErrUnexpectedResponse
	}
	return strconv.ParseFloat(res[off:], 64)
}

func (bor *BorIP) SetAntenna('''))
n('bor-set-helper',BCHK,(BC,re.compile(r'''	res, err := bor\.command\(("(?:GAIN|ANTENNA|HEADER|GO|STOP)"(?:, [^\n]*)?)\)
	if err != nil \{
		return err
	\}
	_, err = parseAndCheck\(res, 1\)
'''),r'''	_, err := bor.set(1, \1)
'''),(BC,'''func (bor *BorIP) Close() {''','''func (bor *BorIP) set(minArgs int, cmd string, args ...string) ([]string, error) {
	res, err := bor.command(cmd, args...)
	if err != nil {
		return nil, err
	}
	return parseAndCheck(res, minArgs)
}

func (bor *BorIP) Close() {'''))
n('bor-freq-loop',BCHK,(BC,re.compile(r'''	if len\(resParts\) >= 3 \{
.*?	return
\}
''',re.S),r'''	for i, dst := range []*float64{&targetIF, &actualIF, &targetDDC, &actualDDC} {
		if len(resParts) <= i+2 {
			break
		}
		if *dst, err = strconv.ParseFloat(resParts[i+2], 64); err != nil {
			return 0, 0, 0, 0, err
		}
	}
	return
}
'''))
n('bor-freq-array',BCHK,(BC,re.compile(r'''	if len\(resParts\) >= 3 \{
.*?	return
\}
''',re.S),r'''	var vals [4]float64
	for i := 0; i < 4 && i+2 < len(resParts); i++ {
		v, err := strconv.ParseFloat(resParts[i+2], 64)
		if err != nil {
			return 0, 0, 0, 0, err
		}
		vals[i] = v
	}
	return vals[0], vals[1], vals[2], vals[3], nil
}
'''))
n('bor-parse-loop',BCHK,(BC,re.compile(r'''	var err error
	if d\.MinGain.*?	if val, err :=''',re.S),r'''	for i, dst := range []*float64{&d.MinGain, &d.MaxGain, &d.GainStep, &d.FPGAFreq} {
		v, err := strconv.ParseFloat(deviceParts[i+1], 64)
		if err != nil {
			return nil, err
		}
		*dst = v
	}
	if val, err :='''))
n('bor-parse-local',BCHK,(BC,re.compile(r'''	d := &Device\{
.*?	return d, nil
''',re.S),r'''	minGain, err := strconv.ParseFloat(deviceParts[1], 64)
	if err != nil {
		return nil, err
	}
	maxGain, err := strconv.ParseFloat(deviceParts[2], 64)
	if err != nil {
		return nil, err
	}
	step, err := strconv.ParseFloat(deviceParts[3], 64)
	if err != nil {
		return nil, err
	}
	fpga, err := strconv.ParseFloat(deviceParts[4], 64)
	if err != nil {
		return nil, err
	}
	n, err := strconv.ParseInt(deviceParts[5], 10, 32)
	if err != nil {
		return nil, err
	}
	serial := ""
	if len(deviceParts) >= 8 {
		serial = deviceParts[7]
	}
	return &Device{
		Name: deviceParts[0], Serial: serial,
		MinGain: minGain, MaxGain: maxGain, GainStep: step, FPGAFreq: fpga,
		SamplesPerPacket: int(n),
		ValidAntennas:    strings.Split(deviceParts[6], ","),
	}, nil
'''))
n('bor-cmd-writes',BCHK,(BC,re.compile(r'''	argString := "".*?	if err := bor\.wr\.Flush''',re.S),r'''	bor.wr.WriteString(cmd)
	for _, a := range args {
		bor.wr.WriteString(" " + a)
	}
	bor.wr.WriteString("\\n")
	if err := bor.wr.Flush'''))
n('bor-cmd-byte',BCHK,(BC,re.compile(r'''	argString := "".*?	if err := bor\.wr\.Flush''',re.S),r'''	bor.wr.WriteString(cmd)
	for _, a := range args {
		bor.wr.WriteByte(' ')
		bor.wr.WriteString(a)
	}
	bor.wr.WriteByte('\\n')
	if err := bor.wr.Flush'''))
n('bor-cmd-fprintf',BCHK,(BC,'''	if _, err := bor.wr.WriteString(cmd + argString + "\\n"); err != nil {''','''	if _, err := fmt.Fprintf(bor.wr, "%s%s\\n", cmd, argString); err != nil {'''))
n('bor-cmd-parts',BCHK,(BC,re.compile(r'''	argString := "".*?	if _, err := bor.wr.WriteString\([^\n]*; err''',re.S),r'''	parts := append([]string{cmd}, args...)
	if _, err := bor.wr.WriteString(strings.Join(parts, " ") + "\\n"); err'''))
n('bor-cmd-early',BCHK,(BC,'''	line, err := bor.rd.ReadString('\\n')
	return strings.TrimSpace(line), err
''','''	line, err := bor.rd.ReadString('\\n')
	if err != nil {
		return "", err
	}
	return strings.TrimSpace(line), nil
'''))
n('bor-roundtrip',BCHK,(BC,'''	if _, err := bor.wr.WriteString(cmd + argString + "\\n"); err != nil {
		return "", err
	}
	if err := bor.wr.Flush(); err != nil {
		return "", err
	}
	line, err := bor.rd.ReadString('\\n')
	return strings.TrimSpace(line), err
}
''','''	if err := bor.send(cmd + argString); err != nil {
		return "", err
	}
	return bor.recv()
}

func (bor *BorIP) send(line string) error {
	_, err := bor.wr.WriteString(line + "\\n")
	if err == nil {
		err = bor.wr.Flush()
	}
	return err
}

func (bor *BorIP) recv() (string, error) {
	line, err := bor.rd.ReadString('\\n')
	return strings.TrimSpace(line), err
}
'''))
n('bor-close-defer',BCHK,(BC,'''	if bor.running {
		bor.Stop()
	}
	if bor.device != nil {
		bor.SelectDevice("!")
	}
	bor.conn.Close()
''','''	defer bor.conn.Close()
	if bor.running {
		bor.Stop()
	}
	if bor.device != nil {
		bor.SelectDevice("!")
	}
'''))
n('bor-select-prefix',BCHK,(BC,'''	if resParts[1][0] == '-' {
		if len(resParts[1]) == 1 {''','''	if strings.HasPrefix(resParts[1], "-") {
		if resParts[1] == "-" {'''))
n('bor-select-cut',BCHK,(BC,re.compile(r'''	resParts := strings\.SplitN\(res, " ", 2\)
.*?	dev, err := parseDeviceString\(resParts\[1\]\)''',re.S),r'''	word, desc, found := strings.Cut(res, " ")
	if !found || word != "DEVICE" {
		return nil, ErrUnexpectedResponse
	}
	if desc == "-" {
		bor.device = nil
		return nil, nil
	}
	if strings.HasPrefix(desc, "-") {
		return nil, errors.New("borip: " + strings.TrimSpace(desc[1:]))
	}
	dev, err := parseDeviceString(desc)'''))
n('bor-select-index',BCHK,(BC,re.compile(r'''	resParts := strings\.SplitN\(res, " ", 2\)
.*?	dev, err := parseDeviceString\(resParts\[1\]\)''',re.S),r'''	sp := strings.IndexByte(res, ' ')
	if sp < 0 || res[:sp] != "DEVICE" {
		return nil, ErrUnexpectedResponse
	}
	desc := res[sp+1:]
	if desc[0] == '-' {
		if len(desc) == 1 {
			bor.device = nil
			return nil, nil
		}
		return nil, errors.New("borip: " + strings.TrimSpace(desc[1:]))
	}
	dev, err := parseDeviceString(desc)'''))
n('bor-select-hasprefix',BCHK,(BC,re.compile(r'''	resParts := strings\.SplitN\(res, " ", 2\)
.*?	dev, err := parseDeviceString\(resParts\[1\]\)''',re.S),r'''	if !strings.HasPrefix(res, "DEVICE ") {
		return nil, ErrUnexpectedResponse
	}
	desc := strings.TrimPrefix(res, "DEVICE ")
	if desc[0] == '-' {
		if len(desc) == 1 {
			bor.device = nil
			return nil, nil
		}
		return nil, errors.New("borip: " + strings.TrimSpace(desc[1:]))
	}
	dev, err := parseDeviceString(desc)'''))
n('bor-header-if',BCHK,(BC,'''	switch res[7:] {
	case "ON":
		return true, nil
	case "OFF":
		return false, nil
	}
	return false, ErrUnexpectedResponse
''','''	state := res[7:]
	if state != "ON" && state != "OFF" {
		return false, ErrUnexpectedResponse
	}
	return state == "ON", nil
'''))
n('bor-header-onoff',BCHK,(BC,'''	enabledStr := "OFF"
	if enabled {
		enabledStr = "ON"
	}
	res, err := bor.command("HEADER", enabledStr)
''','''	res, err := bor.command("HEADER", onOff(enabled))
'''),(BC,'''func (bor *BorIP) Go() error {''','''func onOff(b bool) string {
	if b {
		return "ON"
	}
	return "OFF"
}

func (bor *BorIP) Go() error {'''))
n('bor-go-iferr',BCHK,(BC,'''	_, err = parseAndCheck(res, 1)
	if err == nil {
		bor.running = true
	}
	return err
''','''	if _, err = parseAndCheck(res, 1); err != nil {
		return err
	}
	bor.running = true
	return nil
'''))
n('bor-run-helper',BCHK,(BC,'''	res, err := bor.command("GO")
	if err != nil {
		return err
	}
	_, err = parseAndCheck(res, 1)
	if err == nil {
		bor.running = true
	}
	return err
''','''	return bor.setRunning("GO", true)
'''),(BC,'''	res, err := bor.command("STOP")
	if err != nil {
		return err
	}
	_, err = parseAndCheck(res, 1)
	if err == nil {
		bor.running = false
	}
	return err
}
''','''	return bor.setRunning("STOP", false)
}

func (bor *BorIP) setRunning(cmd string, on bool) error {
	res, err := bor.command(cmd)
	if err != nil {
		return err
	}
	if _, err := parseAndCheck(res, 1); err != nil {
		return err
	}
	bor.running = on
	return nil
}
'''))
n('bor-check-switch',BCHK,(BC,'''	if len(resParts) < 2 {
		return nil, ErrUnexpectedResponse
	}
	if resParts[1] != "OK" {
		return nil, makeErrorResponse(resParts[1:])
	}
	if len(resParts) < 1+minArgs {
		return nil, ErrUnexpectedResponse
	}
	return resParts, nil
''','''	switch {
	case len(resParts) < 2:
		return nil, ErrUnexpectedResponse
	case resParts[1] != "OK":
		return nil, makeErrorResponse(resParts[1:])
	case len(resParts) <= minArgs:
		return nil, ErrUnexpectedResponse
	}
	return resParts, nil
'''))
n('bor-dial-order',BCHK,(BC,'''	bor := &BorIP{
		conn: conn,
		rd:   bufio.NewReader(conn),
		wr:   bufio.NewWriter(conn),
	}
	line, err := bor.rd.ReadString('\\n')
	if err != nil {
		conn.Close()
		return nil, err
	}
	line = strings.TrimSpace(line)
	if line != "DEVICE -" {
		log.Printf("Unexpected hello from server: %s", line)
	}
	return bor, nil
''','''	bor := newClient(conn)
	if err := bor.hello(); err != nil {
		bor.conn.Close()
		return nil, err
	}
	return bor, nil
}

func newClient(conn net.Conn) *BorIP {
	bor := new(BorIP)
	bor.conn = conn
	bor.rd = bufio.NewReader(conn)
	bor.wr = bufio.NewWriter(conn)
	return bor
}

func (bor *BorIP) hello() error {
	line, err := bor.rd.ReadString('\\n')
	if err != nil {
		return err
	}
	if line = strings.TrimSpace(line); line != "DEVICE -" {
		log.Printf("Unexpected hello from server: %s", line)
	}
	return nil
'''))
n('bor-pkt-fill','C35 C31',(BP,re.compile(r'''	if rd\.bufI >= rd\.bufN \{
.*?	idx := 0''',re.S),r'''	if rd.bufI >= rd.bufN {
		if err := rd.fill(); err != nil {
			return 0, err
		}
	}
	idx := 0'''),(BP,'''func (rd *PacketReader) ReadSamples''','''func (rd *PacketReader) fill() error {
	n, _, err := rd.conn.ReadFrom(rd.buf)
	if err != nil {
		return err
	}
	rd.bufI, rd.bufN = 0, 0
	start := 0
	if rd.withHeaders {
		if n < packetHeaderSize {
			return ErrShortPacket
		}
		rd.header = PacketHeader{
			Flags:        rd.buf[0],
			Notification: rd.buf[1],
			Idx:          binary.LittleEndian.Uint16(rd.buf[2:]),
		}
		start = packetHeaderSize
	}
	rd.bufI = start
	rd.bufN = start + (n-start)/4*4
	return nil
}

func (rd *PacketReader) ReadSamples'''))
n('bor-pkt-count','C35 C31',(BP,re.compile(r'''	idx := 0
.*?	return idx, nil''',re.S),r'''	n := (rd.bufN - rd.bufI) / 4
	if n > len(samples) {
		n = len(samples)
	}
	for i := 0; i < n; i++ {
		b := rd.buf[rd.bufI:]
		samples[i] = complex(float64(int16(binary.LittleEndian.Uint16(b))), float64(int16(binary.LittleEndian.Uint16(b[2:]))))
		rd.bufI += 4
	}
	return n, nil'''))
n('bor-pkt-range','C35 C31',(BP,re.compile(r'''	idx := 0
.*?	return idx, nil''',re.S),r'''	for i := range samples {
		if rd.bufI == rd.bufN {
			return i, nil
		}
		samples[i] = complex(float64(rd.int16At(0)), float64(rd.int16At(2)))
		rd.bufI += 4
	}
	return len(samples), nil'''),(BP,'''func (rd *PacketReader) ReadSamples''','''func (rd *PacketReader) int16At(off int) int16 {
	p := rd.bufI + off
	return int16(rd.buf[p]) | int16(rd.buf[p+1])<<8
}

func (rd *PacketReader) ReadSamples'''))
n('bor-pkt-locals','C35 C31',(BP,re.compile(r'''	idx := 0
.*?	return idx, nil''',re.S),r'''	idx, pos := 0, rd.bufI
	for ; idx < len(samples) && pos < rd.bufN; idx++ {
		iReal := int16(binary.LittleEndian.Uint16(rd.buf[pos : pos+2]))
		qQmag := int16(binary.LittleEndian.Uint16(rd.buf[pos+2 : pos+4]))
		samples[idx] = complex(float64(iReal), float64(qQmag))
		pos += 4
	}
	rd.bufI = pos
	return idx, nil'''))
SV='boripserver/main.go'; SD='boripserver/devices.go'
SRV='C37 C38 C39 C40'
n('srv-send-bytes',SRV,(SV,'''	str := cmd
	if len(args) > 0 {
		str += " " + strings.Join(args, " ")
	}
	if debug {
		log.Printf("SERVER: %s", str)
	}
	_, err := cli.wr.WriteString(str + eol)
	if err == nil {
		err = cli.wr.Flush()
	}
	return err
''','''	str := strings.Join(append([]string{cmd}, args...), " ")
	if debug {
		log.Printf("SERVER: %s", str)
	}
	if _, err := cli.wr.WriteString(str); err != nil {
		return err
	}
	if _, err := cli.wr.WriteString(eol); err != nil {
		return err
	}
	return cli.wr.Flush()
'''))
n('srv-release-helper',SRV,(SV,re.compile(r'''			if cli.isStreaming\(\) \{
				cli.stopStreaming\(\)
			\}
			if cli.dev != nil \{
				cli.dev.close\(\)
				cli.dev = nil
			\}
'''),'''			cli.release()
'''),(SV,'''func (cli *client) isStreaming() bool {''','''func (cli *client) release() {
	cli.stopStreaming()
	if dev := cli.dev; dev != nil {
		dev.close()
		cli.dev = nil
	}
}

func (cli *client) isStreaming() bool {'''))
n('srv-explicit-unlock',SRV,(SV,'''	defer cli.streamMutex.Unlock()
	return cli.closeChan != nil
''','''	running := cli.closeChan != nil
	cli.streamMutex.Unlock()
	return running
'''),(SV,'''	defer cli.streamMutex.Unlock()
	if cli.closeChan == nil {
		return
	}
	select {
	case cli.closeChan <- true:
	default: // it was already told to stop
	}
''','''	if cli.closeChan != nil {
		select {
		case cli.closeChan <- true:
		default: // it was already told to stop
		}
	}
	cli.streamMutex.Unlock()
'''),(SD,'''	defer dev.mutex.Unlock()
	if dev.inUse {
		return ErrDeviceNotAvailable
	}
	rdev, err := rtl.Open(dev.rtlIndex)
	if err != nil {
		return err
	}
	dev.inUse = true
	dev.rtlDev = rdev
	return nil
''','''	if dev.inUse {
		dev.mutex.Unlock()
		return ErrDeviceNotAvailable
	}
	rdev, err := rtl.Open(dev.rtlIndex)
	if err == nil {
		dev.rtlDev = rdev
		dev.inUse = true
	}
	dev.mutex.Unlock()
	return err
'''))
n('srv-conn-defer',SRV,(SV,'''	defer conn.Close()
	cli := &client{
		conn: conn,
		wr:   bufio.NewWriter(conn),
		rd:   bufio.NewReader(conn),
	}
''','''	cli := &client{
		conn: conn,
		wr:   bufio.NewWriter(conn),
		rd:   bufio.NewReader(conn),
	}
	defer func() {
		cli.stopStreaming()
		if cli.dev != nil {
			cli.dev.close()
		}
		conn.Close()
	}()
'''),(SV,'''		log.Printf("Client handling error: %s", err.Error())
	}
	cli.stopStreaming()
	if cli.dev != nil {
		cli.dev.close()
	}
}
''','''		log.Printf("Client handling error: %s", err.Error())
	}
}
'''))
n('srv-rest-slice',SRV,(SV,'''		for bufferOffset := 0; bufferOffset < len(buf); bufferOffset += samplesPerPacket * 2 {
			nValues := len(buf) - bufferOffset
			if nValues > samplesPerPacket*2 {
				nValues = samplesPerPacket * 2
			}
''','''		for rest := buf; len(rest) > 0; {
			nValues := len(rest)
			if nValues > samplesPerPacket*2 {
				nValues = samplesPerPacket * 2
			}
'''),(SV,'''			dsp.Ui8toi16b(buf[bufferOffset:bufferOffset+nValues], bufOut[headerSize:])
''','''			dsp.Ui8toi16b(rest[:nValues], bufOut[headerSize:])
			rest = rest[nValues:]
'''))
n('srv-fields',SRV,(SV,'''		parts := strings.Split(line, " ")
		cmd := strings.ToUpper(parts[0])
		args := parts[1:]
		if err := cli.handleCommand(cmd, args); err != nil {
			return err
		}
''','''		cmd, args := parseLine(line)
		err = cli.handleCommand(cmd, args)
		if err != nil {
			return err
		}
'''),(SV,'''func (cli *client) loop() error {''','''func parseLine(line string) (string, []string) {
	parts := strings.Split(line, " ")
	return strings.ToUpper(parts[0]), parts[1:]
}

func (cli *client) loop() error {'''))
n('srv-device-method',SRV,(SV,'''			var dev *device
			for _, d := range devices {
				if err := d.open(); err == nil {
					dev = d
					break
				} else if err != ErrDeviceNotAvailable {
					log.Printf("Failed to open device %s: %s", d.name, err.Error())
				}
			}

			if dev == nil {''','''			dev := firstAvailable(devices)
			if dev == nil {'''),(SV,'''func (cli *client) isStreaming() bool {''','''func firstAvailable(devices []*device) *device {
	for _, d := range devices {
		err := d.open()
		if err == nil {
			return d
		}
		if err != ErrDeviceNotAvailable {
			log.Printf("Failed to open device %s: %s", d.name, err.Error())
		}
	}
	return nil
}

func (cli *client) isStreaming() bool {'''))
