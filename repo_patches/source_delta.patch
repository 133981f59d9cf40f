From e970272b0b1939815b7f1b073dc69c5a8da9ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 01/31] fix: IIR filter constructors leave the caller's
 coefficients alone

---
 dsp/filter.go | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/dsp/filter.go b/dsp/filter.go
index 68f0bac..ff3ce37 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -19,12 +19,7 @@ func NewIIRFilter(bCoef, aCoef []float64) *IIRFilter {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
-	for i, c := range bCoef {
-		bCoef[i] = c / aCoef[0]
-	}
-	for i, c := range aCoef[1:] {
-		aCoef[i+1] = c / aCoef[0]
-	}
+	bCoef, aCoef = normalizeCoef(bCoef, aCoef)
 	return &IIRFilter{
 		bCoef: bCoef,
 		aCoef: aCoef,
@@ -37,12 +32,7 @@ func NewComplexIIRFilter32(bCoef, aCoef []float32) *ComplexIIRFilter32 {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
-	for i, c := range bCoef {
-		bCoef[i] = c / aCoef[0]
-	}
-	for i, c := range aCoef[1:] {
-		aCoef[i+1] = c / aCoef[0]
-	}
+	bCoef, aCoef = normalizeCoef32(bCoef, aCoef)
 	return &ComplexIIRFilter32{
 		bCoef: rtoc32(bCoef),
 		aCoef: rtoc32(aCoef),
@@ -55,12 +45,7 @@ func NewComplexIIRFilter(bCoef, aCoef []float64) *ComplexIIRFilter {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
-	for i, c := range bCoef {
-		bCoef[i] = c / aCoef[0]
-	}
-	for i, c := range aCoef[1:] {
-		aCoef[i+1] = c / aCoef[0]
-	}
+	bCoef, aCoef = normalizeCoef(bCoef, aCoef)
 	return &ComplexIIRFilter{
 		bCoef: rtoc(bCoef),
 		aCoef: rtoc(aCoef),
@@ -68,6 +53,31 @@ func NewComplexIIRFilter(bCoef, aCoef []float64) *ComplexIIRFilter {
 		pOut:  make([]complex128, len(bCoef)-1),
 	}
 }
+// normalizeCoef returns copies of the coefficients divided by aCoef[0].
+func normalizeCoef(bCoef, aCoef []float64) (b, a []float64) {
+	b = make([]float64, len(bCoef))
+	a = make([]float64, len(aCoef))
+	for i, c := range bCoef {
+		b[i] = c / aCoef[0]
+	}
+	for i, c := range aCoef {
+		a[i] = c / aCoef[0]
+	}
+	return b, a
+}
+
+func normalizeCoef32(bCoef, aCoef []float32) (b, a []float32) {
+	b = make([]float32, len(bCoef))
+	a = make([]float32, len(aCoef))
+	for i, c := range bCoef {
+		b[i] = c / aCoef[0]
+	}
+	for i, c := range aCoef {
+		a[i] = c / aCoef[0]
+	}
+	return b, a
+}
+
 
 func (f *IIRFilter) Filter(input, output []float64) {
 	for i, s := range input {
-- 
2.43.0


From 011ac91eb1998adb6d1f305da1c383c5c61b22fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 02/31] fix: IIR filters of order zero no longer panic

---
 dsp/filter.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dsp/filter.go b/dsp/filter.go
index ff3ce37..34f3b65 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -53,6 +53,7 @@ func NewComplexIIRFilter(bCoef, aCoef []float64) *ComplexIIRFilter {
 		pOut:  make([]complex128, len(bCoef)-1),
 	}
 }
+
 // normalizeCoef returns copies of the coefficients divided by aCoef[0].
 func normalizeCoef(bCoef, aCoef []float64) (b, a []float64) {
 	b = make([]float64, len(bCoef))
@@ -78,7 +79,6 @@ func normalizeCoef32(bCoef, aCoef []float32) (b, a []float32) {
 	return b, a
 }
 
-
 func (f *IIRFilter) Filter(input, output []float64) {
 	for i, s := range input {
 		sum := f.bCoef[0] * s
@@ -89,8 +89,10 @@ func (f *IIRFilter) Filter(input, output []float64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -105,8 +107,10 @@ func (f *ComplexIIRFilter32) Filter(input, output []complex64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -121,8 +125,10 @@ func (f *ComplexIIRFilter) Filter(input, output []complex128) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
-- 
2.43.0


From a87c48c3edfa35322b24e64b2217dcd81ac30ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 03/31] fix: ui8tof32 and vAbsC64 accept empty slices

The bounds check hint output[n-1] panics when either slice is empty.
---
 dsp/conversion.go | 1 -
 dsp/math32.go     | 1 -
 2 files changed, 2 deletions(-)

diff --git a/dsp/conversion.go b/dsp/conversion.go
index 1943d4a..9cdc843 100644
--- a/dsp/conversion.go
+++ b/dsp/conversion.go
@@ -43,7 +43,6 @@ func ui8tof32(input []byte, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
-	_ = output[n-1] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(int(v) - 128)
 	}
diff --git a/dsp/math32.go b/dsp/math32.go
index 8e69271..b805df0 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -83,7 +83,6 @@ func vAbsC64(input []complex64, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
-	_ = output[n-1] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(math.Sqrt(float64(real(v)*real(v) + imag(v)*imag(v))))
 	}
-- 
2.43.0


From 9710864b2548df468c6e11529e8969c76efb8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 04/31] fix: VScaleC64 accepts empty slices and slices over 32M
 samples

---
 dsp/math32.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsp/math32.go b/dsp/math32.go
index b805df0..9d899ef 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -61,8 +61,11 @@ func VAddC64(input, output []complex64) {
 }
 
 func VScaleC64(input, output []complex64, scale float32) {
-	in := (*[2 << 25]float32)(unsafe.Pointer(&input[0]))[:len(input)*2]
-	out := (*[2 << 25]float32)(unsafe.Pointer(&output[0]))[:len(output)*2]
+	if len(input) == 0 || len(output) == 0 {
+		return
+	}
+	in := unsafe.Slice((*float32)(unsafe.Pointer(&input[0])), len(input)*2)
+	out := unsafe.Slice((*float32)(unsafe.Pointer(&output[0])), len(output)*2)
 	VScaleF32(in, out, scale)
 }
 
-- 
2.43.0


From e192d71b386da85e5bd126c89ce70510a46ac925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 05/31] fix: rotate-by-90 filters handle blocks of any length

Blocks whose length was not a multiple of four samples panicked.
---
 dsp/util.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/dsp/util.go b/dsp/util.go
index 6adb8e8..1ad2b99 100644
--- a/dsp/util.go
+++ b/dsp/util.go
@@ -26,10 +26,15 @@ func (fi *Rotate90Filter) Filter(samples []complex64) []complex64 {
 func rotate90FilterAsm(fi *Rotate90Filter, samples []complex64) []complex64
 
 func rotate90Filter(fi *Rotate90Filter, samples []complex64) []complex64 {
-	for i := 0; i < len(samples); i += 4 {
-		samples[i+1] = complex(-imag(samples[i+1]), real(samples[i+1]))
-		samples[i+2] = -samples[i+2]
-		samples[i+3] = complex(imag(samples[i+3]), -real(samples[i+3]))
+	for i, s := range samples {
+		switch i & 3 {
+		case 1:
+			samples[i] = complex(-imag(s), real(s))
+		case 2:
+			samples[i] = -s
+		case 3:
+			samples[i] = complex(imag(s), -real(s))
+		}
 	}
 	return samples
 }
@@ -44,11 +49,16 @@ func (fi *I32Rotate90Filter) Filter(samples []int32) []int32 {
 func i32Rotate90FilterAsm(fi *I32Rotate90Filter, samples []int32) []int32
 
 func i32Rotate90Filter(fi *I32Rotate90Filter, samples []int32) []int32 {
-	for i := 0; i < len(samples); i += 8 {
-		samples[i+2], samples[i+3] = -samples[i+3], samples[i+2]
-		samples[i+4] = -samples[i+4]
-		samples[i+5] = -samples[i+5]
-		samples[i+6], samples[i+7] = samples[i+7], -samples[i+6]
+	for i := 0; i+1 < len(samples); i += 2 {
+		re, im := samples[i], samples[i+1]
+		switch i & 6 {
+		case 2:
+			samples[i], samples[i+1] = -im, re
+		case 4:
+			samples[i], samples[i+1] = -re, -im
+		case 6:
+			samples[i], samples[i+1] = im, -re
+		}
 	}
 	return samples
 }
-- 
2.43.0


From b6bbeced5882d347149b562e43459312132a7703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 06/31] fix: windows of length one are 1, not NaN

---
 dsp/window.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dsp/window.go b/dsp/window.go
index ead99f4..e7dddc3 100644
--- a/dsp/window.go
+++ b/dsp/window.go
@@ -36,12 +36,20 @@ func HammingWindowF32(output []float32) {
 }
 
 func HanningWindow(output []float64) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	for n := range output {
 		output[n] = 0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1)))
 	}
 }
 
 func HanningWindowF32(output []float32) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	for n := range output {
 		output[n] = float32(0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1))))
 	}
@@ -66,6 +74,10 @@ func NuttallWindowF32(output []float32) {
 }
 
 func window(output []float64, a []float64) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	if len(a) < 1 || len(a) > 4 {
 		panic("invalid window length " + strconv.Itoa(len(a)))
 	}
@@ -87,6 +99,10 @@ func window(output []float64, a []float64) {
 }
 
 func windowF32(output []float32, a []float64) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	if len(a) < 1 || len(a) > 4 {
 		panic("invalid window length " + strconv.Itoa(len(a)))
 	}
-- 
2.43.0


From a008d099a7e48188c0533f0d98b7387d3e859d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:01 +0000
Subject: [PATCH 07/31] fix: linear interpolation returns 0 outside the samples
 instead of panicking

Linear indexed with a negative number for x < 0, and both variants did
for NaN and for positions beyond the range of int.
---
 dsp/interpolate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/interpolate.go b/dsp/interpolate.go
index 86da1a7..fc29c03 100644
--- a/dsp/interpolate.go
+++ b/dsp/interpolate.go
@@ -4,6 +4,9 @@ import "math"
 
 // Linear interpolates using linear interpolation.
 func Linear(samples []float64, x float64) float64 {
+	if !(x >= 0 && x < float64(len(samples))) {
+		return 0
+	}
 	var samp float64
 	low := math.Floor(x)
 	lowInt := int(low)
@@ -22,7 +25,7 @@ func Linear(samples []float64, x float64) float64 {
 
 // LinearF32 interpolates using linear interpolation.
 func LinearF32(samples []float32, x float32) float32 {
-	if x < 0 || x > math.MaxFloat32 {
+	if !(x >= 0 && x < float32(len(samples))) {
 		return 0
 	}
 	var samp float32
-- 
2.43.0


From 758701a22912310f98404314c4ec5720c6ccab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:02 +0000
Subject: [PATCH 08/31] fix: interpolators take the neighbours of floor(x) at
 negative positions

The index was truncated toward zero while the fraction was taken from the
floor, so -1 < x < 0 (and every other negative position) used the samples
one position too far right.
---
 dsp/interpolate.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dsp/interpolate.go b/dsp/interpolate.go
index fc29c03..954275f 100644
--- a/dsp/interpolate.go
+++ b/dsp/interpolate.go
@@ -46,7 +46,7 @@ func LinearF32(samples []float32, x float32) float32 {
 
 // Hermite4p3o interpolates using 4-point, 3rd-order Hermite (x-form)
 func Hermite4p3o(samples []float64, x float64) float64 {
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [4]float64
 	for i := -1; i <= 2; i++ {
@@ -65,7 +65,7 @@ func Hermite4p3o(samples []float64, x float64) float64 {
 
 // Hermite4p3oF32 interpolates using 4-point, 3rd-order Hermite (x-form)
 func Hermite4p3oF32(samples []float32, x float32) float32 {
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [4]float32
 	for i := -1; i <= 2; i++ {
@@ -86,7 +86,7 @@ func Hermite4p3oF32(samples []float32, x float32) float32 {
 func Optimal2x4p4o(samples []float64, x float64) float64 {
 	const middle = 1
 
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [6]float64
 	for i := -1; i <= 2; i++ {
@@ -113,7 +113,7 @@ func Optimal2x4p4o(samples []float64, x float64) float64 {
 func Optimal2x4p4oF32(samples []float32, x float32) float32 {
 	const middle = 1
 
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [6]float32
 	for i := -1; i <= 2; i++ {
@@ -139,7 +139,7 @@ func Optimal2x4p4oF32(samples []float32, x float32) float32 {
 // Optimal2x6p5o interpolates using optimal 2x (6-point, 5th-order) (z-form)
 func Optimal2x6p5o(samples []float64, x float64) float64 {
 	const middle = 2
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [6]float64
 	for i := -2; i <= 3; i++ {
@@ -168,7 +168,7 @@ func Optimal2x6p5o(samples []float64, x float64) float64 {
 // Optimal2x6p5oF32 interpolates using optimal 2x (6-point, 5th-order) (z-form)
 func Optimal2x6p5oF32(samples []float32, x float32) float32 {
 	const middle = 2
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [6]float32
 	for i := -2; i <= 3; i++ {
-- 
2.43.0


From 84ce5584e5294c05c780e635a1771991c47025cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 09/31] fix: DTMF detection leaves the caller's samples alone

---
 dsp/dtmf/dtmf.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsp/dtmf/dtmf.go b/dsp/dtmf/dtmf.go
index 017f2ea..3e9ae12 100644
--- a/dsp/dtmf/dtmf.go
+++ b/dsp/dtmf/dtmf.go
@@ -21,6 +21,7 @@ type DTMF struct {
 	nHigh     int
 	blockSize int
 	w         []float32
+	block     []float32
 }
 
 func New(lowFreq, highFreq []uint64, sampleRate, blockSize int, windowFunc func([]float32)) *DTMF {
@@ -36,6 +37,7 @@ func New(lowFreq, highFreq []uint64, sampleRate, blockSize int, windowFunc func(
 		nHigh:     len(highFreq),
 		blockSize: blockSize,
 		w:         w,
+		block:     make([]float32, blockSize),
 	}
 }
 
@@ -48,13 +50,14 @@ func (d *DTMF) Feed(samples []float32) (int, float32) {
 	if len(samples) > d.blockSize {
 		samples = samples[:d.blockSize]
 	}
+	block := d.block[:len(samples)]
 	for i, s := range samples {
-		samples[i] = s * d.w[i]
+		block[i] = s * d.w[i]
 	}
 	d.lowFreq.Reset()
 	d.highFreq.Reset()
-	d.lowFreq.Feed(samples)
-	d.highFreq.Feed(samples)
+	d.lowFreq.Feed(block)
+	d.highFreq.Feed(block)
 	row, thresh1 := max(d.lowFreq.Magnitude())
 	col, thresh2 := max(d.highFreq.Magnitude())
 	if thresh2 < thresh1 {
-- 
2.43.0


From 55db3c2c8182ed176907ebedf3c92dec653cb390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 10/31] fix: AX.25 frames no longer alias the decoder's receive
 buffer

Frame.Info was a slice of the buffer the next frame is received into, so a
returned frame changed as more bits were fed (and parsing shifted the
buffer's address octets in place).
---
 dsp/ax25/hdlc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index ffbed6d..ee3acde 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -64,7 +64,8 @@ func (ax *AX25) processFrame() *Frame {
 		return nil
 	}
 
-	buf := ax.rxBuf[:len(ax.rxBuf)-2]
+	// The frame must not share memory with the receive buffer.
+	buf := append([]byte(nil), ax.rxBuf[:len(ax.rxBuf)-2]...)
 
 	// for i, b := range buf {
 	// 	fmt.Printf("%d %08b\n", i, b)
-- 
2.43.0


From 465e87db4ae38c15fe4be3ed50aad0afd0c22700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 11/31] fix: FlexNet callsign characters were masked wrongly

The first character lost bit 4 (mask 0x2f instead of 0x3f), and the mask of
the second and third applied to one operand only.
---
 dsp/ax25/hdlc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index ee3acde..819cef1 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -81,13 +81,13 @@ func (ax *AX25) processFrame() *Frame {
 		frame.V1 = false
 		frame.Command = (buf[1] & 2) != 0
 		var dest []byte
-		if i := (buf[2] >> 2) & 0x2f; i != 0 {
+		if i := (buf[2] >> 2) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[2] << 4) | ((buf[3]>>4)&0xf)&0x3f; i != 0 {
+		if i := ((buf[2] << 4) | ((buf[3] >> 4) & 0xf)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[3] << 2) | ((buf[4]>>6)&3)&0x3f; i != 0 {
+		if i := ((buf[3] << 2) | ((buf[4] >> 6) & 3)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
 		if i := buf[4] & 0x3f; i != 0 {
-- 
2.43.0


From d251b83a18e1d24e07de43ab6290ab0548e6ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 12/31] fix: Ui8tof32 wrote past the output when it had to be
 aligned first

The block loop stopped at the length rounded down to 16, but after the
alignment steps the index is not a multiple of 16, so that the last block
read and wrote up to 15 samples past the slices.
---
 dsp/conversion_avo_amd64.go | 2 +-
 dsp/conversion_avo_amd64.s  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/conversion_avo_amd64.go b/dsp/conversion_avo_amd64.go
index 3e589d5..1e4951e 100644
--- a/dsp/conversion_avo_amd64.go
+++ b/dsp/conversion_avo_amd64.go
@@ -47,7 +47,7 @@ func main() {
 	Label("ui8tof32_aligned")
 	n := GP64()
 	MOVQ(inputLen, n)
-	ANDQ(U32(^uint32(15)), n)
+	SUBQ(Imm(15), n) // the last index at which a block of 16 starts is below this
 	CMPQ(index, n)
 	JGE(LabelRef("ui8tof32_stepper"))
 
diff --git a/dsp/conversion_avo_amd64.s b/dsp/conversion_avo_amd64.s
index 4735153..3916b72 100644
--- a/dsp/conversion_avo_amd64.s
+++ b/dsp/conversion_avo_amd64.s
@@ -44,7 +44,7 @@ ui8tof32_align:
 
 ui8tof32_aligned:
 	MOVQ   CX, SI
-	ANDQ   $0xfffffff0, SI
+	SUBQ   $0x0f, SI
 	CMPQ   BX, SI
 	JGE    ui8tof32_stepper
 	CMPB   ·useSSE4+0(SB), $0x01
-- 
2.43.0


From 3180a5d590d1eabd5c67c35ffb8a3f1965972b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 13/31] fix: I8tof32 wrote past the output when it had to be
 aligned first

As in Ui8tof32, the index is not a multiple of 16 after the alignment steps.
---
 dsp/conversion_amd64.s | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index db943df..a2e5a05 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -353,8 +353,9 @@ i8tof32_align:
 
 i8tof32_aligned:
 
+	// Stop when less than 16 samples are left
 	MOVQ CX, DX
-	ANDQ $(~15), DX
+	SUBQ $15, DX
 	CMPQ AX, DX
 	JGE  i8tof32_stepper
 
-- 
2.43.0


From c2fe41e08abcda6c2c92cc10e283ea5e42d685d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 14/31] fix: I8tof32 and F32toi16 clobbered the frame pointer

BP is callee-save in the Go ABI and these routines have no frame.
---
 dsp/conversion_amd64.s | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index a2e5a05..38b08e8 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -334,12 +334,12 @@ i8tof32_min_len:
 	JGE  i8tof32_stepper
 
 	// Align output to 16-byte boundary
-	MOVQ DI, BP
-	ANDQ $15, BP
-	SHRQ $2, BP
+	MOVQ DI, R8
+	ANDQ $15, R8
+	SHRQ $2, R8
 	JZ   i8tof32_aligned
 	MOVQ $16, DX
-	SUBQ BP, DX
+	SUBQ R8, DX
 
 i8tof32_align:
 	MOVBQSX  (SI), BX
@@ -363,8 +363,8 @@ i8tof32_aligned:
 	CMPB ·useSSE4(SB), $1
 	JNE  i8tof32_nosse4
 
-	MOVQ $0, BP
-	MOVQ BP, X9
+	MOVQ $0, R8
+	MOVQ R8, X9
 
 i8tof32_sse4_loop:
 	MOVOU (SI), X0 // Load 16 unsigned 8-bit values
@@ -400,8 +400,8 @@ i8tof32_sse4_loop:
 	JMP  i8tof32_stepper
 
 i8tof32_nosse4:
-	MOVQ $0, BP
-	MOVQ BP, X9
+	MOVQ $0, R8
+	MOVQ R8, X9
 
 i8tof32_sse2_loop:
 	MOVOU (SI), X0 // Load 16 unsigned 8-bit values
@@ -522,8 +522,8 @@ f32toi16_step:
 	MOVSS     (SI), X0
 	LEAQ      (DI)(AX*2), BX
 	MULSS     X8, X0
-	CVTTSS2SL X0, BP
-	MOVW      BP, (BX)
+	CVTTSS2SL X0, R8
+	MOVW      R8, (BX)
 	ADDQ      $4, SI
 	INCQ      AX
 	CMPQ      AX, DX
-- 
2.43.0


From efbca1d7ff1a63cde864ea2eaf39ab919e17c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 15/31] fix: VScaleF32 left samples after the last SIMD block
 unscaled

The scalar loop compared with the length rounded down to whole blocks.
---
 dsp/math32_amd64.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/math32_amd64.s b/dsp/math32_amd64.s
index 6d5aff0..6ec4c2c 100644
--- a/dsp/math32_amd64.s
+++ b/dsp/math32_amd64.s
@@ -314,7 +314,7 @@ vscalef32_scalar_loop:
 	INCQ  AX
 	ADDQ  $4, SI
 	ADDQ  $4, DI
-	CMPQ  AX, CX
+	CMPQ  AX, DX
 	JLT   vscalef32_scalar_loop
 
 vscalef32_done:
-- 
2.43.0


From 8ef4371f752308a4b36c0cbb93d6fb03bab37644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 16/31] fix: useAVX2 was set on processors with AVX but not
 AVX2

The routines it guards use the register form of VBROADCASTSS, which is AVX2.
---
 dsp/cpu_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/cpu_amd64.go b/dsp/cpu_amd64.go
index 6b7deab..9d6b11e 100644
--- a/dsp/cpu_amd64.go
+++ b/dsp/cpu_amd64.go
@@ -12,6 +12,6 @@ var (
 
 func init() {
 	useSSE4 = cpu.X86.HasSSE41
-	useAVX2 = cpu.X86.HasAVX
+	useAVX2 = cpu.X86.HasAVX2
 	useSSE2 = cpu.X86.HasSSE2
 }
-- 
2.43.0


From 2f05e2bff881dae5cc38a43f0c4cfbbec72a2eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 17/31] fix: Ui8tof32 was declared twice on windows

---
 dsp/conversion.go   | 2 +-
 dsp/stub_windows.go | 6 ------
 2 files changed, 1 insertion(+), 7 deletions(-)
 delete mode 100644 dsp/stub_windows.go

diff --git a/dsp/conversion.go b/dsp/conversion.go
index 9cdc843..7887e3e 100644
--- a/dsp/conversion.go
+++ b/dsp/conversion.go
@@ -5,7 +5,7 @@ import (
 	"math"
 )
 
-//go:generate go run conversion_avo_amd64.go -out conversion_avo_amd64.s -stubs stub_windows.go
+//go:generate go run conversion_avo_amd64.go -out conversion_avo_amd64.s
 
 // Ui8toi16 converts and scales unsigned 8-bit samples to 16-bit signed samples.
 func Ui8toi16(input []byte, output []int16)
diff --git a/dsp/stub_windows.go b/dsp/stub_windows.go
deleted file mode 100644
index c5cc76e..0000000
--- a/dsp/stub_windows.go
+++ /dev/null
@@ -1,6 +0,0 @@
-// Code generated by command: go run conversion_avo_amd64.go -out conversion_avo_amd64.s -stubs stub_windows.go. DO NOT EDIT.
-
-package dsp
-
-// Ui8tof32 converts unsigned 8-bit samples to 32-bit float.
-func Ui8tof32(input []byte, output []float32)
-- 
2.43.0


From c0794b03516534d6337991bf6fcdfd4378cc5253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 18/31] fix: I16ToBLE and VMinF32 were missing on 386, arm and
 arm64

---
 dsp/conversion_386.s   | 3 +++
 dsp/conversion_arm.s   | 3 +++
 dsp/conversion_arm64.s | 3 +++
 dsp/math32_386.s       | 3 +++
 dsp/math32_arm.s       | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/dsp/conversion_386.s b/dsp/conversion_386.s
index c3a9eb1..6bf50fc 100644
--- a/dsp/conversion_386.s
+++ b/dsp/conversion_386.s
@@ -24,3 +24,6 @@ TEXT ·I16bleToF64(SB), 7, $0
 
 TEXT ·I16bleToF32(SB), 7, $0
 	JMP ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), 7, $0
+	JMP ·i16ToBLE(SB)
diff --git a/dsp/conversion_arm.s b/dsp/conversion_arm.s
index 51e627c..cc89602 100644
--- a/dsp/conversion_arm.s
+++ b/dsp/conversion_arm.s
@@ -306,3 +306,6 @@ TEXT ·I16bleToF64(SB), NOSPLIT, $0
 
 TEXT ·I16bleToF32(SB), NOSPLIT, $0
 	B ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), NOSPLIT, $0
+	B ·i16ToBLE(SB)
diff --git a/dsp/conversion_arm64.s b/dsp/conversion_arm64.s
index eba09db..4f21b00 100644
--- a/dsp/conversion_arm64.s
+++ b/dsp/conversion_arm64.s
@@ -97,3 +97,6 @@ TEXT ·I16bleToF64(SB), NOSPLIT, $0
 
 TEXT ·I16bleToF32(SB), NOSPLIT, $0
 	B ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), NOSPLIT, $0
+	B ·i16ToBLE(SB)
diff --git a/dsp/math32_386.s b/dsp/math32_386.s
index 1d0358b..3e5e326 100644
--- a/dsp/math32_386.s
+++ b/dsp/math32_386.s
@@ -15,3 +15,6 @@ TEXT ·VMaxF32(SB), 7, $0
 
 TEXT ·VMulC64xF32(SB), 7, $0
 	JMP ·vMulC64xF32(SB)
+
+TEXT ·VMinF32(SB), 7, $0
+	JMP ·vMinF32(SB)
diff --git a/dsp/math32_arm.s b/dsp/math32_arm.s
index 0fdbb5d..b773f55 100644
--- a/dsp/math32_arm.s
+++ b/dsp/math32_arm.s
@@ -350,3 +350,6 @@ vmaxf32_scalar_loop:
 vmaxf32_done:
 	MOVF F4, ret+12(FP)
 	RET
+
+TEXT ·VMinF32(SB), NOSPLIT, $0
+	B ·vMinF32(SB)
-- 
2.43.0


From 9968e94462f65afc3be9f84fa22e59f67bbe30fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 19/31] fix: arm assembly named arguments and results unlike
 their Go declarations

---
 dsp/demod_arm.s      |  2 +-
 dsp/downsample_arm.s | 20 ++++++++++----------
 dsp/util_arm.s       | 12 ++++++------
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/dsp/demod_arm.s b/dsp/demod_arm.s
index 67bf490..78a7bc6 100644
--- a/dsp/demod_arm.s
+++ b/dsp/demod_arm.s
@@ -89,5 +89,5 @@ fmDemod_atan_done:
 
 fmDemod_done:
 	MOVW input_len+8(FP), R0
-	MOVW R0, output_len+28(FP)
+	MOVW R0, ret+28(FP)
 	RET
diff --git a/dsp/downsample_arm.s b/dsp/downsample_arm.s
index 35055ef..2e1cb07 100644
--- a/dsp/downsample_arm.s
+++ b/dsp/downsample_arm.s
@@ -5,7 +5,7 @@ TEXT ·lowPassDownsampleComplexFilterAsm(SB), NOSPLIT, $0
 	MOVW 0(R3), R8              // fi.Downsample
 	MOVW 12(R3), R7             // fi.prevIndex
 	MOVW samples_len+8(FP), R2
-	MOVW samples_data+4(FP), R5 // input
+	MOVW samples_base+4(FP), R5 // input
 	MOVW R5, R6                 // output
 	MOVF 4(R3), F0              // real(fi.now)
 	MOVF 8(R3), F1              // imag(fi.now)
@@ -53,14 +53,14 @@ complexLoopEnd:
 	MOVF F0, 4(R3)  // real(fi.now)
 	MOVF F1, 8(R3)  // imag(fi.now)
 
-	MOVW samples_data+4(FP), R0
+	MOVW samples_base+4(FP), R0
 	SUB  R0, R6
 	MOVW R6>>3, R6
 	MOVW R6, ret_len+20(FP)
 	MOVW samples_cap+12(FP), R4
 	MOVW R4, ret_cap+24(FP)
-	MOVW samples_data+4(FP), R0
-	MOVW R0, ret_data+16(FP)
+	MOVW samples_base+4(FP), R0
+	MOVW R0, ret_base+16(FP)
 	RET
 
 TEXT ·lowPassDownsampleRationalFilterAsm(SB), NOSPLIT, $0
@@ -79,7 +79,7 @@ TEXT ·lowPassDownsampleRationalFilterAsm(SB), NOSPLIT, $0
 	MOVF 8(R4), F3  // fi.sum
 	MOVW 12(R4), R2 // fi.prevIndex
 
-	MOVW samples_ptr+4(FP), R5 // input
+	MOVW samples_base+4(FP), R5 // input
 	MOVW R5, R6                // output
 	MOVW samples_len+8(FP), R3
 	ADD  R3<<2, R5, R3         // end of input
@@ -111,12 +111,12 @@ rationalLoopEnd:
 	MOVW R2, 12(R4) // fi.prevIndex
 	MOVF F3, 8(R4)  // fi.sum
 
-	MOVW samples_ptr+4(FP), R0
+	MOVW samples_base+4(FP), R0
 	SUB  R0, R6
 	MOVW R6>>2, R6
-	MOVW R6, res_len+20(FP)
+	MOVW R6, ret_len+20(FP)
 	MOVW samples_cap+12(FP), R4
-	MOVW R4, res_cap+24(FP)
-	MOVW samples_ptr+4(FP), R0
-	MOVW R0, res_ptr+16(FP)
+	MOVW R4, ret_cap+24(FP)
+	MOVW samples_base+4(FP), R0
+	MOVW R0, ret_base+16(FP)
 	RET
diff --git a/dsp/util_arm.s b/dsp/util_arm.s
index f24b795..089e9b8 100644
--- a/dsp/util_arm.s
+++ b/dsp/util_arm.s
@@ -2,7 +2,7 @@
 
 TEXT ·rotate90FilterAsm(SB), NOSPLIT, $0
 	MOVW samples_len+8(FP), R7
-	MOVW samples_ptr+4(FP), R8
+	MOVW samples_base+4(FP), R8
 	AND  $(~3), R7             // round down to nearest multiple of 4
 
 	TEQ $0, R7
@@ -35,8 +35,8 @@ r90_loop:
 	BGT r90_loop
 
 r90_end:
-	MOVW samples_ptr+4(FP), R0
-	MOVW R0, ret_ptr+16(FP)
+	MOVW samples_base+4(FP), R0
+	MOVW R0, ret_base+16(FP)
 	MOVW samples_len+8(FP), R0
 	MOVW R0, ret_len+20(FP)
 	MOVW samples_cap+12(FP), R0
@@ -45,7 +45,7 @@ r90_end:
 
 TEXT ·i32Rotate90FilterAsm(SB), NOSPLIT, $0
 	MOVW samples_len+8(FP), R7
-	MOVW samples_ptr+4(FP), R8
+	MOVW samples_base+4(FP), R8
 	AND  $(~3), R7             // round down to nearest multiple of 4
 
 	TEQ $0, R7
@@ -78,8 +78,8 @@ i32r90_loop:
 	BGT i32r90_loop
 
 i32r90_end:
-	MOVW samples_ptr+4(FP), R0
-	MOVW R0, ret_ptr+16(FP)
+	MOVW samples_base+4(FP), R0
+	MOVW R0, ret_base+16(FP)
 	MOVW samples_len+8(FP), R0
 	MOVW R0, ret_len+20(FP)
 	MOVW samples_cap+12(FP), R0
-- 
2.43.0


From 708ea68b5f4da5e55b1ad3a91cf6b3989d71f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:24 +0000
Subject: [PATCH 20/31] fix: borip: close the connection when the server's
 greeting cannot be read

---
 borip/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/borip/client.go b/borip/client.go
index 3966159..58020ad 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -89,6 +89,7 @@ func Dial(addr string) (*BorIP, error) {
 	}
 	line, err := bor.rd.ReadString('\n')
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	line = strings.TrimSpace(line)
-- 
2.43.0


From f7c3c2abcb7de3287d2fc04a4646f35640d437be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:24 +0000
Subject: [PATCH 21/31] fix: borip: accept a device description without the
 optional serial number

---
 borip/client.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/borip/client.go b/borip/client.go
index 58020ad..944e653 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -39,12 +39,14 @@ type Device struct {
 func parseDeviceString(st string) (*Device, error) {
 	// Terratec NOXON (rev 3)|-5.000000|30.000000|1.000000|3200000.000000|16256|(Default)|Terratec NOXON (rev 3)
 	deviceParts := strings.Split(st, "|")
-	if len(deviceParts) < 8 {
+	if len(deviceParts) < 7 {
 		return nil, ErrUnexpectedResponse
 	}
 	d := &Device{
-		Name:   deviceParts[0],
-		Serial: deviceParts[7],
+		Name: deviceParts[0],
+	}
+	if len(deviceParts) > 7 { // the serial number is optional
+		d.Serial = deviceParts[7]
 	}
 	var err error
 	if d.MinGain, err = strconv.ParseFloat(deviceParts[1], 64); err != nil {
-- 
2.43.0


From d2c0c930a0015ba233045ccfd330f8a8510e91f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:24 +0000
Subject: [PATCH 22/31] fix: borip: SetRate panicked on an OK reply without a
 rate

---
 borip/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/borip/client.go b/borip/client.go
index 944e653..b3b5302 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -193,7 +193,7 @@ func (bor *BorIP) SetRate(rate float64) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	parts, err := parseAndCheck(res, 1)
+	parts, err := parseAndCheck(res, 2)
 	if err != nil {
 		return 0.0, err
 	}
-- 
2.43.0


From f8ff42b53fd402eff9e323d15b7481379ef75bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:24 +0000
Subject: [PATCH 23/31] fix: borip: SetFrequency ignored malformed numbers in
 the reply

---
 borip/client.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/borip/client.go b/borip/client.go
index b3b5302..77b8e02 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -142,16 +142,24 @@ func (bor *BorIP) SetFrequency(freq float64) (targetIF, actualIF, targetDDC, act
 		return
 	}
 	if len(resParts) >= 3 {
-		targetIF, _ = strconv.ParseFloat(resParts[2], 64)
+		if targetIF, err = strconv.ParseFloat(resParts[2], 64); err != nil {
+			return 0, 0, 0, 0, err
+		}
 	}
 	if len(resParts) >= 4 {
-		actualIF, _ = strconv.ParseFloat(resParts[3], 64)
+		if actualIF, err = strconv.ParseFloat(resParts[3], 64); err != nil {
+			return 0, 0, 0, 0, err
+		}
 	}
 	if len(resParts) >= 5 {
-		targetDDC, _ = strconv.ParseFloat(resParts[4], 64)
+		if targetDDC, err = strconv.ParseFloat(resParts[4], 64); err != nil {
+			return 0, 0, 0, 0, err
+		}
 	}
 	if len(resParts) >= 6 {
-		actualDDC, _ = strconv.ParseFloat(resParts[5], 64)
+		if actualDDC, err = strconv.ParseFloat(resParts[5], 64); err != nil {
+			return 0, 0, 0, 0, err
+		}
 	}
 	return
 }
-- 
2.43.0


From b8fa03a5d81bf6107ead1c2c8e4ebdf5cd9c1dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:42 +0000
Subject: [PATCH 24/31] fix: borip: ReadSamples overran short slices, partial
 samples and short packets

---
 borip/packet.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/borip/packet.go b/borip/packet.go
index aed4de9..6d81ea0 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -57,8 +57,7 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 		if err != nil {
 			return 0, err
 		}
-		rd.bufI = 0
-		rd.bufN = n
+		rd.bufI, rd.bufN = 0, 0
 		if rd.withHeaders {
 			if n < packetHeaderSize {
 				return 0, ErrShortPacket
@@ -68,10 +67,10 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 			rd.header.Idx = binary.LittleEndian.Uint16(rd.buf[2:4])
 			rd.bufI += 4
 		}
-		// rd.bufN = n - (n & 7)
+		rd.bufN = n - (n & 3) // whole samples only
 	}
 	idx := 0
-	for rd.bufI < rd.bufN {
+	for idx < len(samples) && rd.bufI < rd.bufN {
 		iReal := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI : rd.bufI+2]))
 		qQmag := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI+2 : rd.bufI+4]))
 		samples[idx] = complex(float64(iReal), float64(qQmag))
-- 
2.43.0


From bfb1f1eb44c6dbda8012ce16f1b964bd9476a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:07 +0000
Subject: [PATCH 25/31] fix: boripserver did not compile: the frequency was
 used outside the if statement that declared it

---
 boripserver/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index c945a91..48ec637 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -105,7 +105,8 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			return cli.sendResponse(cmd, resDevice, "no active device")
 		}
 		if len(args) == 0 {
-			if curFreq, err := cli.dev.rtlDev.GetCenterFreq(); err != nil {
+			curFreq, err := cli.dev.rtlDev.GetCenterFreq()
+			if err != nil {
 				return cli.sendResponse(cmd, "-", "failed to get frequency")
 			}
 			return cli.sendResponse(cmd, strconv.FormatUint(uint64(curFreq), 10))
-- 
2.43.0


From 65c728008cfeb5ba449b7df2bac8882e13e7a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:07 +0000
Subject: [PATCH 26/31] fix: DEVICE panicked for a tuner that reports fewer
 than two gains

---
 boripserver/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 48ec637..777ba78 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -259,10 +259,12 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			gains, err := dev.rtlDev.GetTunerGains()
 			if err != nil {
 				log.Printf("Failed to get tuner gains: %s", err.Error())
-			} else {
+			} else if len(gains) > 0 {
 				minGain = float64(gains[0])
 				maxGain = float64(gains[len(gains)-1])
-				gainStep = float64(gains[1] - gains[0])
+				if len(gains) > 1 {
+					gainStep = float64(gains[1] - gains[0])
+				}
 			}
 			// if debug {
 			// 	log.Printf("Gains: %+v", gains)
-- 
2.43.0


From 87bfbe4a62bdf225e1eaf57147d719bd368efa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:07 +0000
Subject: [PATCH 27/31] fix: a negative gain was reported as a huge unsigned
 number

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 777ba78..b7023be 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -176,7 +176,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 		if err != nil {
 			return cli.sendResponse(cmd, resFail, "failed to get gain")
 		}
-		return cli.sendResponse(cmd, resOK, strconv.FormatUint(uint64(curGain), 10))
+		return cli.sendResponse(cmd, resOK, strconv.Itoa(curGain))
 	case cmdDest:
 		if len(args) == 0 {
 			if cli.dest == nil {
-- 
2.43.0


From 3c70346463a24cee55362d99d18926836e76e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:07 +0000
Subject: [PATCH 28/31] fix: the tuner frequency was sent only when reading it
 had failed

---
 boripserver/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index b7023be..6e5b642 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -272,7 +272,6 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			_, tunerFreq, err := dev.rtlDev.GetXtalFreq()
 			if err != nil {
 				log.Printf("Failed to get tuner frequency: %s", err.Error())
-			} else {
 				tunerFreq = 0
 			}
 			// <DEVICE NAME>|<MIN GAIN>|<MAX GAIN>|<GAIN STEP>|<FPGA FREQ IN HZ>|<COMPLEX SAMPLE PAIRS PER PACKET>|<CSV LIST OF VALID ANTENNAS>[|<DEVICE SERIAL NUMBER>]
-- 
2.43.0


From 46fba7f9ca31d1361d8690251218026af8b1940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:07 +0000
Subject: [PATCH 29/31] fix: the ANTENNA and DEST replies were not those the
 client expects

---
 boripserver/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 6e5b642..e2e7c8d 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -130,7 +130,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 		if len(args) > 0 {
 			return cli.sendResponse(cmd, resOK)
 		}
-		return cli.sendResponse(cmd, resOK, "default")
+		return cli.sendResponse(cmd, "default")
 	case cmdRate:
 		if cli.dev == nil {
 			return cli.sendResponse(cmd, resDevice, "no active device")
@@ -190,7 +190,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			return cli.sendResponse(cmd, resFail, "failed to resolve address")
 		}
 		cli.dest = addr
-		return cli.sendResponse(cmd, resOK)
+		return cli.sendResponse(cmd, resOK, addr.String())
 	case cmdGo:
 		if cli.dest == nil {
 			return cli.sendResponse(cmd, resFail, "no DEST set")
-- 
2.43.0


From 391e647f26716feef444bcc33630505fa5e2853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:42 +0000
Subject: [PATCH 30/31] fix: a stream leaked its socket, panicked when stopped
 twice and raced with the session that stops it

---
 boripserver/main.go | 46 +++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index e2e7c8d..872e410 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -19,6 +19,7 @@ import (
 	"runtime/pprof"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/samuel/go-dsp/dsp"
 )
@@ -71,12 +72,14 @@ var (
 )
 
 type client struct {
-	conn      net.Conn
-	rd        *bufio.Reader
-	wr        *bufio.Writer
-	dest      *net.UDPAddr
-	dev       *device
-	closeChan chan bool
+	conn net.Conn
+	rd   *bufio.Reader
+	wr   *bufio.Writer
+	dest *net.UDPAddr
+	dev  *device
+
+	streamMutex sync.Mutex
+	closeChan   chan bool // guarded by streamMutex
 }
 
 func (cli *client) sendResponse(cmd string, args ...string) error {
@@ -299,14 +302,27 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 }
 
 func (cli *client) isStreaming() bool {
+	cli.streamMutex.Lock()
+	defer cli.streamMutex.Unlock()
 	return cli.closeChan != nil
 }
 
 func (cli *client) stopStreaming() {
-	if !cli.isStreaming() {
+	cli.streamMutex.Lock()
+	defer cli.streamMutex.Unlock()
+	if cli.closeChan == nil {
 		return
 	}
-	close(cli.closeChan)
+	select {
+	case cli.closeChan <- true:
+	default: // it was already told to stop
+	}
+}
+
+func (cli *client) streamEnded() {
+	cli.streamMutex.Lock()
+	defer cli.streamMutex.Unlock()
+	cli.closeChan = nil
 }
 
 func (cli *client) startStreaming() error {
@@ -322,10 +338,14 @@ func (cli *client) startStreaming() error {
 		return err
 	}
 	if err := cli.dev.rtlDev.ResetBuffer(); err != nil {
+		conn.Close()
 		return err
 	}
 
-	cli.closeChan = make(chan bool, 1)
+	closeChan := make(chan bool, 1)
+	cli.streamMutex.Lock()
+	cli.closeChan = closeChan
+	cli.streamMutex.Unlock()
 	bufOut := make([]byte, headerSize+samplesPerPacket*2*2)
 	bufOut[0] = flagStreamStart
 	bufOut[1] = 0 // notification: reserved (currently 0)
@@ -335,13 +355,15 @@ func (cli *client) startStreaming() error {
 	// cli.dev.rtlDev.ReadAsyncUsingSync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
 	cli.dev.rtlDev.ReadAsync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
 		if buf == nil {
-			cli.closeChan = nil
+			conn.Close()
+			cli.streamEnded()
 			return true
 		}
 
 		select {
-		case _ = <-cli.closeChan:
-			cli.closeChan = nil
+		case _ = <-closeChan:
+			conn.Close()
+			cli.streamEnded()
 			return true
 		default:
 		}
-- 
2.43.0


From 48b24a92123c81d6e9abb3d8e22abfaac87f3a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:20 +0000
Subject: [PATCH 31/31] fix: every packet of a device buffer carried the
 samples of its first part

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 872e410..426cfe9 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -378,7 +378,7 @@ func (cli *client) startStreaming() error {
 			bufOut[3] = uint8(seq >> 8)
 			seq++
 
-			dsp.Ui8toi16b(buf[:nValues], bufOut[headerSize:])
+			dsp.Ui8toi16b(buf[bufferOffset:bufferOffset+nValues], bufOut[headerSize:])
 
 			if _, err := conn.Write(bufOut[:headerSize+nValues*2]); err != nil {
 				// TODO: what to do if not "connection refused"?
-- 
2.43.0

