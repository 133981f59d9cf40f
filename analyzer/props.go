package main

import (
	"strconv"
	"strings"
)

func init() {
	k := func(names ...string) (out []diffItem) {
		for _, n := range names {
			out = append(out, diffItem{pkg: "dsp", impl: n, spec: n})
		}
		return
	}
	v := func(names ...string) (out []diffItem) {
		for _, n := range names {
			out = append(out, diffItem{pkg: "dsp", impl: "verif" + n, spec: n})
		}
		return
	}
	diffs := func(items ...[]diffItem) func(r *Report) {
		return func(r *Report) {
			for _, it := range items {
				runDiffs(r, it)
			}
		}
	}
	fl := "floating-point expressions are compared as real-number normal forms (coefficients to 11 digits): re-association and rounding order are not distinguished"
	al := "slices passed as different arguments do not overlap, except where an item says in place"
	cv := "float to integer conversion is compared for values in the range of the result; bodyless declarations are followed to the portable function of the same name"
	ov := "bodyless declarations are followed to the portable function of the same name"
	rule := "Value-flow summaries (every result and every modified memory cell as a gated expression over the inputs, loops as closed forms, whole-array maps, reductions or recurrences) of the repository's functions, computed from the current source, are compared with summaries of the reference definitions in analyzer/spec; recurrences are matched coinductively. Every index, slice, division and nil obligation met on the way must follow from the preconditions. "
	checks["C07"] = &checkDef{rule: rule + "Items: constructor followed by an arbitrary sequence of Filter calls, for the three IIR filters.", assume: []string{fl, al},
		run: diffs(v("IIR", "ComplexIIR", "ComplexIIR32"))}
	checks["C08"] = &checkDef{rule: rule + "Items: an arbitrary sequence of Filter / FilterF32 calls on a section.", assume: []string{fl, al},
		run: diffs(v("BiQuad", "BiQuadF32"))}
	checks["C10"] = &checkDef{rule: rule + "Items: arbitrary sequences of Filter calls, and of Filter calls mixed with FilterOne.", assume: []string{fl, al},
		run: diffs(v("DC", "DC32", "DCMix", "DCMix32"))}
	convs := k("Ui8toi16", "Ui8toi16b", "Ui8tof32", "I8tof32", "Ui8toc64", "I8toc64", "C64toi8", "F32toi16", "F32toi16ble", "I16ToBLE", "I16bleToF64", "I16bleToF32", "I32bleToF32", "F32Tof32ble")
	vecs := k("VMulC64xF32", "VMulC64", "VAddF32", "VAddC64", "VScaleF32", "VScaleC64", "VAbsC64")
	inPlace := func(items []diffItem) (out []diffItem) {
		for _, it := range items {
			it.o.alias = map[int]int{1: 0}
			out = append(out, it)
		}
		return
	}
	asmConv := []asmItem{{"F32toi16", "F32toi16"}, {"F32toi16ble", "F32toi16ble"}, {"I16bleToF32", "I16bleToF32"}, {"I16bleToF64", "I16bleToF64"}, {"I8tof32", "I8tof32"}, {"Ui8toc64", "Ui8toc64Parts"}, {"Ui8tof32", "Ui8tof32"}, {"Ui8toi16", "Ui8toi16Bytes"}, {"Ui8toi16b", "Ui8toi16b"}}
	asmVec := []asmItem{{"VScaleF32", "VScaleF32"}}
	asmExt := []asmItem{{"VMaxF32", "VMaxF32"}, {"VMinF32", "VMinF32"}}
	asmAll := append(append(append([]asmItem{}, asmConv...), asmVec...), asmExt...)
	isISA := func(kind string) bool { return strings.Contains(kind, "executed without") }
	checks["C01"] = &checkDef{rule: "Every index, slice and misalignment obligation of the kernels holds for all slice lengths, and for every alignment of every slice whose address the routine looks at. Portable functions are analysed from their Go source; amd64 routines are rewritten instruction by instruction from the assembler's own listing into the same representation.", assume: []string{"slices passed as different arguments do not overlap", "the assembler's listing (go tool asm -S) is the code that runs"}, jobs: true,
		run: func(r *Report) {
			items := append(append(append([]diffItem{}, convs...), vecs...), k("VMaxF32", "VMinF32")...)
			for i := range items {
				items[i].o.total, items[i].o.nan = true, true
			}
			runDiffs(r, items)
			asmItems(r, asmAll, "obl", func(kind string) bool { return !isISA(kind) })
		}}
	checks["C05"] = &checkDef{rule: "Every amd64 instruction beyond SSE2 is on a path on which its feature was reported; arguments, results, frame pointer and stack of every routine of every architecture as its Go declaration and the ABI ask.", jobs: true,
		run: func(r *Report) {
			asmItems(r, asmAll, "obl", isISA)
			abiItems(r)
		}}
	checks["C02"] = &checkDef{rule: rule + "Items: every sample-conversion function.", assume: []string{fl, al, cv}, jobs: true, run: func(r *Report) {
		diffs(convs)(r)
		asmItems(r, asmConv, "cmp", nil)
	}}
	checks["C03"] = &checkDef{rule: rule + "Items: every vector function on separate slices, and with input and output the same slice.", assume: []string{fl, al, ov},
		jobs: true, run: func(r *Report) {
			diffs(vecs, inPlace(k("VMulC64xF32", "VMulC64", "VAddF32", "VAddC64", "VScaleF32", "VScaleC64")))(r)
			asmItems(r, asmVec, "cmp", nil)
		}}
	checks["C04"] = &checkDef{rule: rule + "Items: vector maximum and minimum.", assume: []string{"no element is NaN"}, jobs: true, run: func(r *Report) {
		diffs(k("VMaxF32", "VMinF32"))(r)
		asmItems(r, asmExt, "cmp", nil)
	}}
	checks["C06"] = &checkDef{rule: "Every function declared without a body has exactly one assembly implementation on every architecture with assembly, whose argument, result and variable accesses have the offsets, names and widths of the Go declarations; the library packages type-check on every platform.", assume: []string{"platforms: the combinations of the architectures with assembly and the operating systems Go supports on them that the packages can be loaded for without network"},
		run: portItems}
	checks["C42"] = &checkDef{rule: "Every assembly routine that is only a jump continues, with its arguments untouched, in the Go function of the same operation: the one of the same name, or one whose value-flow summary equals that function's.",
		run: stubItems}
	cpuItems := []diffItem{}
	cpuItem := func(impl, spec string) {
		cpuItems = append(cpuItems, diffItem{pkg: "dsp/internal/cpu", impl: impl, spec: spec, o: Opts{results: true}})
	}
	for _, x := range []string{"NoOptions=CPU", "EnvUnknown=CPU", "EnvOff=CPUNoAVX2", "EnvAllOff=CPUAllOff", "EnvAllOn=CPU", "EnvLast=CPUNoAVX2"} {
		j := strings.IndexByte(x, '=')
		cpuItem("verif"+x[:j], x[j+1:])
	}
	for _, f := range strings.Fields("adx aes avx avx2 bmi1 bmi2 erms fma pclmulqdq popcnt sse2 sse3 ssse3 sse41 sse42") {
		cpuItem("verifOff_"+f, "CPUOff_"+f)
		cpuItem("verifOn_"+f, "CPU")
	}
	checks["C41"] = &checkDef{rule: rule + "Items: every reported feature as an expression over the processor's answers, without options, with every feature switched off and on, with all, with unknown and with several options; XGETBV only where the operating system enabled it.", assume: []string{"CPUID and XGETBV answer alike on every call", "option strings: each of the " + strconv.Itoa(len(cpuItems)-1) + " in the drivers, the processor's answers unrestricted"},
		run: func(r *Report) {
			as := abiIn(r, "dsp/internal/cpu")
			cpuidItems(r, as)
			abiReport(r, as, "the results of the CPUID and XGETBV routines are stored where their Go declarations have them", func(k string) bool { return true })
			runDiffs(r, cpuItems)
		}}
	checks["C09"] = &checkDef{rule: rule + "Items: the coefficients and the first output of a new section, for every design function.", assume: []string{fl},
		run: diffs(v("LowPass", "HighPass", "BandPassSkirt", "BandPassPeak", "Notch", "AllPass", "Peaking", "LowShelf", "HighShelf"))}
	checks["C12"] = &checkDef{rule: rule + "Items: an arbitrary sequence of Demodulate calls; the polar discriminators.", assume: []string{fl, al},
		run: diffs(v("FM"), k("PolarDiscriminator", "PolarDiscriminator32"))}
	checks["C13"] = &checkDef{rule: rule + "Items: arbitrary sequences of Filter calls on both downsamplers, every result kept.", assume: []string{fl, al},
		run: diffs(v("DownC", "DownR"))}
	checks["C14"] = &checkDef{rule: rule + "Items: both rotation filters on one block of any length.", assume: []string{fl},
		run: diffs(v("Rotate90", "I32Rotate90"))}
	checks["C15"] = &checkDef{rule: rule + "Items: constructor, an arbitrary sequence of Reset, Feed and interleaved readings, then Magnitude and Complex, for the three detectors.", assume: []string{fl, al},
		run: diffs(v("Goertzel", "Goertzel32", "ComplexGoertzel"))}
	checks["C16"] = &checkDef{rule: rule + "Items: constructor and one Filter call per sample, in both precisions.", assume: []string{fl, al, "0 <= k < n and at most n window coefficients"},
		run: diffs(v("SDFT", "SDFT32"))}
	dt := func(impl, spec string, self bool) []diffItem {
		it := diffItem{pkg: "dsp/dtmf", impl: impl, spec: spec, self: self}
		if self {
			it.o.know = func(p []*Val) []*Term { return []*Term{GeZ(Sub(p[0].t, I(1))), GeZ(Sub(p[1].t, I(1)))} }
		}
		return []diffItem{it}
	}
	checks["C23"] = &checkDef{rule: rule + "Items: constructor with the default and with a custom window, then an arbitrary sequence of Feed calls; the standard detector against New with the standard frequencies; the exported tables.", assume: []string{fl, al},
		run: diffs(dt("verifDTMF", "DTMF", false), dt("verifWindow", "DTMFWindow", false), dt("verifStandard", "verifStandardRef", true), dt("verifTables", "DTMFTables", false))}
	checks["C17"] = &checkDef{rule: rule + "Items: every window function, and the frequency-domain tables as package initialisation leaves them.", assume: []string{fl},
		run: diffs(k("TriangleWindow", "TriangleWindowF32", "HammingWindow", "HammingWindowF32", "HanningWindow", "HanningWindowF32", "BlackmanWindow", "BlackmanWindowF32", "NuttallWindow", "NuttallWindowF32"), v("Tables"))}
	checks["C18"] = &checkDef{rule: rule + "Items: every interpolator.", assume: []string{fl},
		run: diffs(k("Linear", "LinearF32", "Hermite4p3o", "Hermite4p3oF32", "Optimal2x4p4o", "Optimal2x4p4oF32", "Optimal2x6p5o", "Optimal2x6p5oF32"))}
	// C11
	pair := func(a, b string, names ...string) (out []diffItem) {
		for _, n := range names {
			out = append(out, diffItem{pkg: "dsp", impl: a + n, spec: b + n, self: true})
		}
		return
	}
	quiet := func(items []diffItem) []diffItem {
		for i := range items {
			items[i].noOblig = true
		}
		return items
	}
	streams := []string{"IIR", "ComplexIIR", "ComplexIIR32", "BiQuad", "BiQuadF32", "DC", "DC32", "FM", "Goertzel", "Goertzel32", "ComplexGoertzel"}
	checks["C11"] = &checkDef{rule: rule + "Items: for every streaming processor, its constructor and an arbitrary sequence of chunks, against the same stream one sample at a time with empty calls in between.", assume: []string{fl, al, ov},
		run: diffs(quiet(pair("verifChunks", "verifOnes", append(streams, "DownC", "DownR")...)))}
	// C19, C20
	checks["C19"] = &checkDef{rule: rule + "Items: the floating arctangents and the phase helpers against the approximation formulas, whose error against the arctangent is bounded over their whole range by interval subdivision.", assume: []string{fl, "arguments neither overflow nor underflow the ratio and are not NaN"},
		run: func(r *Report) {
			atanBounds(r)
			diffs(k("FastAtan2", "FastAtan2_2", "FastPhase32", "Phase32"))(r)
		}}
	checks["C20"] = &checkDef{rule: rule + "Items: the fixed-point arctangents, the look-up table as package initialisation leaves it.", assume: []string{"|y| and |x| are below 2^40, so that no product wraps", ov},
		run: diffs(k("Atan2LUT", "FastAtan2Fixed"))}
	// C21
	frame := func(ro []int, names ...string) (out []frameItem) {
		for _, n := range names {
			out = append(out, frameItem{pkg: "dsp", fn: n, ro: ro})
		}
		return
	}
	r0 := []int{0}
	var frames []frameItem
	for _, c := range convs {
		frames = append(frames, frame(r0, c.impl)...)
	}
	frames = append(frames, frame(r0, "Linear", "LinearF32", "Hermite4p3o", "Hermite4p3oF32", "Optimal2x4p4o", "Optimal2x4p4oF32", "Optimal2x6p5o", "Optimal2x6p5oF32", "VMaxF32", "VMinF32", "VAddF32", "VAddC64", "VScaleC64", "VScaleF32", "VAbsC64")...)
	frames = append(frames, frame([]int{0, 2}, "VMulC64xF32", "VMulC64")...)
	ownD := diffItem{pkg: "dsp/dtmf", impl: "verifOwnDTMF", spec: "verifRefDTMF", self: true, noOblig: true}
	checks["C21"] = &checkDef{rule: rule + "Items: for every processor, private copies of all input-only slices overwritten as soon as the call returns, against the caller's own slices (equal results, and the caller's slices keep their contents); for the kernels and interpolators, the final contents of the input slices.", assume: []string{fl, al, ov},
		run: func(r *Report) {
			diffs(quiet(pair("verifOwn", "verifRef", append(streams, "SDFT", "SDFT32")...)), []diffItem{ownD})(r)
			runFrame(r, frames)
		}}
	// C22
	nan := func(items []diffItem) []diffItem {
		out := append([]diffItem{}, items...)
		for i := range out {
			out[i].o.total, out[i].o.nan = true, true
		}
		return out
	}
	checks["C22"] = &checkDef{rule: rule + "Items: every index, slice, division, allocation-size and nil obligation of every processing function and of arbitrary call sequences on every processor, with floats that may be NaN.", assume: []string{ov, "objects are built by their constructors with the documented sizes"},
		run: diffs(nan(v("IIR", "ComplexIIR", "ComplexIIR32", "BiQuad", "BiQuadF32", "DC", "DC32", "DCMix", "DCMix32", "FM", "DownC", "DownR", "Goertzel", "Goertzel32", "ComplexGoertzel", "SDFT", "SDFT32", "Rotate90", "I32Rotate90",
			"LowPass", "HighPass", "BandPassSkirt", "BandPassPeak", "Notch", "AllPass", "Peaking", "LowShelf", "HighShelf")),
			nan(k("Linear", "LinearF32", "Hermite4p3o", "Hermite4p3oF32", "Optimal2x4p4o", "Optimal2x4p4oF32", "Optimal2x6p5o", "Optimal2x6p5oF32",
				"FastAtan2", "FastAtan2_2", "FastPhase32", "Phase32", "Atan2LUT", "FastAtan2Fixed", "PolarDiscriminator", "PolarDiscriminator32",
				"TriangleWindow", "TriangleWindowF32", "HammingWindow", "HammingWindowF32", "HanningWindow", "HanningWindowF32", "BlackmanWindow", "BlackmanWindowF32", "NuttallWindow", "NuttallWindowF32")),
			nan(dt("verifDTMF", "DTMF", false)), nan(dt("verifWindow", "DTMFWindow", false)))}
	ax := func(names ...string) (out []diffItem) {
		for _, n := range names {
			i, sp := n, n
			if j := strings.IndexByte(n, '='); j >= 0 {
				i, sp = n[:j], n[j+1:]
			}
			out = append(out, diffItem{pkg: "dsp/ax25", impl: "verif" + i, spec: sp})
		}
		return
	}
	total := func(items []diffItem) []diffItem {
		for i := range items {
			items[i].o.total = true
		}
		return items
	}
	bits := "bits are fed as 0 or 1"
	checks["C24"] = &checkDef{rule: rule + "Items: which sequences of any length of bits complete a frame.", assume: []string{bits}, run: diffs(ax("Accepts"))}
	checks["C25"] = &checkDef{rule: rule + "Items: which sequences of any length of bits complete a frame, and the octets such a frame carries.", assume: []string{bits}, run: diffs(ax("Accepts", "Info"))}
	checks["C26"] = &checkDef{rule: rule + "Items: the frame, field by field, that the last of any sequence of bits completes.", assume: []string{bits}, run: diffs(ax("AX25"))}
	checks["C27"] = &checkDef{rule: rule + "Items: header and control fields of the frame that the last of any sequence of bits completes.", assume: []string{bits}, run: diffs(ax("Header", "Control"))}
	checks["C28"] = &checkDef{rule: rule + "Items: every index, slice and growth obligation of the decoder fed any sequence of bits; no frame carries more than 512 octets.", assume: []string{bits}, run: diffs(total(ax("Bounded")))}
	checks["C29"] = &checkDef{rule: rule + "Items: the frame a bit completes, read after any further sequence of bits has been fed.", assume: []string{bits}, run: diffs(ax("Kept=AX25"))}
	// C31 to C36
	ops := strings.Fields("SetAntenna SetGain SetHeaderEnabled SetRate SetDestination SetFrequency Frequency Rate Gain Antenna Destination HeaderEnabled")
	life := strings.Fields("Dial Go Stop Reselect Switch")
	bo := func(names []string) (out []diffItem) {
		for _, n := range names {
			out = append(out, diffItem{pkg: "borip", impl: "verif" + n, spec: "verifRef" + n, self: true, o: Opts{settle: true, strict: true}})
		}
		return
	}
	sel := []diffItem{{pkg: "borip", impl: "verifSelect", spec: "verifRefSelectOne", self: true, o: Opts{settle: true, strict: true}}}
	lib := []string{
		"the standard library keeps its documentation: bufio.Writer's sticky error and flush, a connection is returned iff there is no error, strings.Split, Fields, TrimSpace and friends, formatting is injective where it is compared; everything it returns is otherwise arbitrary",
		"the transcript is the sequence of library calls with their arguments; arguments carry no line breaks",
	}
	client := append(append(bo(ops), bo(life)...), sel...)
	packets := bo([]string{"PacketsOne", "PacketsPlain", "PacketsTwo"})
	for i := range packets {
		packets[i].o.settle = false
	}
	seq := "Items: after Dial, SelectDevice and Go with arbitrary answers and failures, "
	checks["C31"] = &checkDef{rule: rule + "Items: every index, slice, nil and allocation obligation of the client and of the packet reader, and which replies and datagrams are refused. " + seq + "every client call, then Close.", assume: lib,
		run: diffs(client, packets)}
	checks["C32"] = &checkDef{rule: rule + seq + "every client call, its error, the transcript, and the device and stream state it leaves, as Device and Close show them.", assume: lib, run: diffs(client)}
	checks["C33"] = &checkDef{rule: rule + seq + "every client call and the transcript of the connection: lines sent, flushes and lines read, in order.", assume: lib, run: diffs(client)}
	checks["C34"] = &checkDef{rule: rule + seq + "every client call and its results as functions of the reply line.", assume: lib, run: diffs(bo(ops), bo([]string{"Reselect"}), sel)}
	checks["C35"] = &checkDef{rule: rule + "Items: a reader with and without headers on one call, and on a call after another with arbitrary datagrams and slice sizes in both: samples, count, error and header.", assume: append([]string{"ReadFrom returns 0 <= n <= len(p) and fills p only"}, lib[0]), run: diffs(packets)}
	checks["C36"] = &checkDef{rule: rule + seq + "the transcript through Close, for every client call; dialling with every failure.", assume: lib, run: diffs(client)}
	// C37 to C40
	srv := func(names ...string) (out []diffItem) {
		for _, n := range names {
			out = append(out, diffItem{pkg: "boripserver", impl: "verif" + n, spec: "verifRef" + n, self: true, o: Opts{settle: n != "Stream" && n != "Long", strict: true}})
		}
		return
	}
	both := func(fs ...func(*Report)) func(*Report) {
		return func(r *Report) {
			for _, f := range fs {
				f(r)
			}
		}
	}
	rtl := append([]string{"rtl.Open returns a device iff it returns no error, a sample rate is not negative, everything else the device answers is arbitrary; the device calls the function it is given from one goroutine at a time", "the device table yields any two devices"}, lib...)
	answers := srv("Freq", "Rate", "Gain", "Antenna", "Dest", "Other", "Refused", "Idle", "Release", "Hint", "Select", "End", "Connection")
	checks["C37"] = &checkDef{rule: rule + "Items: each command word, known or not, with and without arguments, with and without a device or destination, whatever the device answers: the lines sent, and every index and nil obligation on the way; a connection of two lines: the greeting, the words and arguments of each line, the default destination, the end.", assume: rtl, run: diffs(answers)}
	checks["C38"] = &checkDef{rule: rule + "Items: claiming and releasing in sequence; selecting and giving up a device.  Locks: paired on all paths; shared state touched under its lock.  Sessions: every path to the end of the function that makes a session releases its device.", assume: rtl, run: both(diffs(srv("Claims", "Release", "Select")), lockItems, sessionItems(true, false))}
	checks["C39"] = &checkDef{rule: rule + "Items: the stream started, fed, stopped twice, ended by the device, running while the device is given up or another is asked for.  270 short buffers.  Locks: what the device's goroutine touches is touched under its lock.  Sessions: every path to the end of the function that makes a session tells its stream to stop.", assume: rtl, run: both(diffs(srv("End", "Turn", "Stream", "Long")), lockItems, sessionItems(false, true))}
	checks["C40"] = &checkDef{rule: rule + "Items: what the server sends for each command and for each packet; what the client sends and how it reads the answers and packets; both against definitions that agree.", assume: rtl,
		run: diffs(srv("Freq", "Rate", "Gain", "Antenna", "Dest", "Select", "Stream", "Long"), bo(ops), sel, packets)}
	checks["C30"] = &checkDef{rule: rule + "Items: the String methods for every value; the exported constants.", run: diffs(ax("PID", "FrameType", "Unnumbered", "Supervisory", "Codes"))}
}
