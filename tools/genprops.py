#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept next to it so that the text is reviewable)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
        "mechanism":[{"name":n,"where":w} for n,w in mech],
        "observe_at":list(observe),"hook_needed":None}})
D="dsp/"
ASM=[D+"conversion_amd64.s",D+"conversion_avo_amd64.s",D+"math32_amd64.s"]
p("C01","Kernels stay inside the slices they were given",
  "For every combination of slice lengths (zero and unequal lengths included), slice alignments and reported CPU features, each sample-conversion and vector-arithmetic function terminates without panicking and reads and writes only memory inside the slices passed to it. This holds for the optimised routine that runs on amd64 and for the portable implementation behind it.",
  ["inputs","configurations"],"all slice lengths, base alignments and CPU feature sets",
  "The tests use a couple of lengths on freshly allocated (aligned) slices; an overrun of a few elements past an unaligned slice is silent, and the SIMD paths are skipped.",
  ASM+[D+"conversion.go",D+"math32.go"],
  [("min-length clamp, alignment prologue, block loop and scalar tail of every kernel",D+"*_amd64.s"),("n := min(len) loops",D+"conversion.go, "+D+"math32.go")])
p("C02","Sample conversions are exact element by element",
  "Each sample-conversion function sets exactly the output elements for which a complete input sample exists (the common prefix of the two slices, counted in whole samples) to the documented value of that sample: unsigned bytes re-centred by 128, signed bytes as they are, 8-bit duplicated into both halves of 16 bits, little-endian byte order, float to 16-bit by scaling and truncating for results in range. All other memory, the input included, is left unchanged, and the optimised and portable implementations agree.",
  ["inputs","configurations"],"all lengths, alignments, sample values, CPU feature sets",
  "Tests compare a few fixed lengths of one ramp; block boundary, tail and lane-order errors at other lengths or on the SSE4 path are not reached.",
  ASM[:2]+[D+"conversion.go"],[("per-sample formula in Go and in each SIMD/scalar path",D+"conversion.go, "+D+"conversion_amd64.s, "+D+"conversion_avo_amd64.s")])
p("C03","Vector arithmetic is element-wise over the common prefix",
  "Vector multiply, add, scale and absolute-value functions set output element i to the documented function of the i-th input elements for every i below the length of the shortest slice, and change nothing else; passing the same slice as input and output gives the same result as separate slices. Every implementation selected by CPU features computes the same elements.",
  ["inputs","configurations"],"all lengths, contents, aliasing of input with output, CPU feature sets",
  "Tests check one or two lengths with SIMD flags off; an unprocessed tail or a wrong lane shows only for other lengths or feature sets.",
  [D+"math32.go",D+"math32_amd64.s"],[("n := min(len...) loops",D+"math32.go"),("VScaleF32 AVX/SSE/scalar loops",D+"math32_amd64.s")])
p("C04","Vector max/min consider every element",
  "The vector maximum (minimum) of any non-empty slice without NaNs is an element of the slice that no element exceeds (is below), whatever its length, alignment or position; of an empty slice it is -Inf (+Inf). Every implementation selected by CPU features returns the same value.",
  ["inputs","configurations"],"all slices without NaN, all CPU feature sets",
  "Tests use few slices and only the scalar path; a lane dropped in the horizontal reduction or a skipped tail needs specific lengths and positions.",
  [D+"math32.go",D+"math32_amd64.s"],[("accumulator init, block loops, horizontal reduction, scalar tail",D+"math32_amd64.s"),("portable loops",D+"math32.go")])
p("C05","Optimised routines respect CPU features and the call ABI",
  "An optimised amd64 routine executes an instruction outside the baseline instruction set only when the CPU feature providing that instruction was reported available. Every routine reads its arguments at the offsets and widths of its Go declaration, stores every result on every return path, and preserves the frame pointer and stack.",
  ["inputs","configurations"],"all routines, paths and CPU feature sets",
  "The tests run on one CPU, with all feature flags false; a missing guard or clobbered register is invisible there.",
  ASM+[D+"cpu_amd64.go",D+"demod_amd64.s",D+"downsample_amd64.s",D+"util_amd64.s"],
  [("CMPB flag / conditional jump guards",D+"*_amd64.s"),("flag initialisation from feature bits",D+"cpu_amd64.go")],
  [("useSSE4,useSSE2,useAVX2","feature flags read by assembly",D+"cpu_amd64.go")])
p("C06","Every declared routine exists on every supported architecture",
  "On each architecture the package ships assembly for, every function declared without a Go body is implemented exactly once, and every argument and result access in that assembly uses the offset and name the Go declaration implies. The library packages type-check for every supported operating system and architecture combination.",
  ["configurations"],"amd64, 386, arm, arm64 x the supported operating systems",
  "Tests run on linux/amd64 only; a missing symbol fails at link time of the user's program elsewhere and a wrong offset corrupts memory there.",
  [D+"conversion_386.s",D+"conversion_arm.s",D+"conversion_arm64.s",D+"math32_386.s",D+"math32_arm.s",D+"math32_arm64.s",D+"mathfixed_arm.s",D+"stub_windows.go"],
  [("TEXT symbols per GOARCH","dsp/*.s"),("body-less declarations","dsp/*.go")])
p("C07","IIR filters realise the direct-form difference equation",
  "An IIR filter built from coefficients b and a outputs y[n] = (sum_i b[i]*x[n-i] - sum_{i>=1} a[i]*y[n-i]) / a[0] for every input, every order (order zero included) and every way of splitting the input over calls, starting from zero history. The real, complex and single-precision complex variants agree on this equation.",
  ["inputs","histories"],"all coefficient vectors of equal non-zero length, all inputs with an output at least as long, all splits",
  "There is no test of these filters; history-shift and coefficient-index errors depend on order and call history.",
  [D+"filter.go",D+"util.go"],[("coefficient normalisation",D+"filter.go"),("sum and history shift loops",D+"filter.go")],
  [("pIn,pOut","last inputs and outputs, newest first",D+"filter.go")])
p("C08","Biquad sections realise the normalised difference equation",
  "A biquad section outputs y[n] = (B0*x[n] + B1*x[n-1] + B2*x[n-2] - A1*y[n-1] - A2*y[n-2]) / A0 for every input and every way of splitting it over calls, starting from zero history. The single-precision entry point performs the same double-precision recursion and rounds only the output.",
  ["inputs","histories"],"all coefficients with A0 != 0, inputs, splits",
  "No test covers biquads; a history update in the wrong order shows only after several samples or calls.",
  [D+"biquad.go"],[("recursion and history update",D+"biquad.go")],[("prevIn,prevOut","two-sample histories",D+"biquad.go")])
p("C09","Biquad designs follow the Audio EQ Cookbook",
  "Each biquad design function (low-pass, high-pass, two band-passes, notch, all-pass, peaking, low-shelf, high-shelf) returns, for every sample rate, frequency, Q or slope and gain, coefficients equal up to rounding to the Audio-EQ-Cookbook formula for that response, and a section with zero history.",
  ["inputs"],"all design parameters","No test covers the designs; a wrong sign or a swapped coefficient only changes the response for some parameters.",
  [D+"biquad.go"],[("cookbook formulas",D+"biquad.go")])
p("C10","DC blockers realise the leaky-integrator recursion",
  "A DC filter with pole a keeps w[n] = x[n] + a*w[n-1] and outputs w[n] - w[n-1] for every input sequence from w = 0. The block entry point and the one-sample entry point produce the same outputs and leave the same state, so they can be mixed freely, in both precisions.",
  ["inputs","histories"],"all poles, inputs and interleavings of block and single-sample calls",
  "No test covers these filters; the agreement of the two entry points quantifies over call histories.",
  [D+"filter.go"],[("w recursion",D+"filter.go")],[("w","previous w",D+"filter.go")])
p("C11","Streaming processors are insensitive to chunking",
  "Feeding a stream to an IIR, biquad, DC, FM-demodulator, downsampling, Goertzel or sliding-DFT processor in chunks of any sizes (empty chunks included) produces the same concatenated output and final state as feeding it in one call. In particular no output depends on anything but the samples so far: state is carried between calls, and each step treats every sample position alike.",
  ["inputs","histories"],"all inputs and all partitions of them into calls",
  "Tests feed one block per filter; a state variable not written back, or reset per call, needs at least two calls to show.",
  [D+"filter.go",D+"biquad.go",D+"demod.go",D+"downsample.go",D+"goertzel.go",D+"sdft.go"],
  [("state loaded at entry and stored at exit","each Filter/Feed/Demodulate method")],
  [("receiver fields","all streaming state","the listed files")])
p("C12","FM demodulation is the phase step between successive samples",
  "The FM demodulator outputs, for each input sample x[n], the package's fast arctangent of x[n]*conj(x[n-1]) (imaginary part first), where x[-1] carries over from the previous call and is zero initially, and reports how many samples it produced. The polar discriminators return the argument of a*conj(b): exact arctangent in double precision, fast arctangent in single precision.",
  ["inputs","histories"],"all inputs with an output at least as long, all call histories",
  "One fixed vector is tested on a single call.",
  [D+"demod.go",D+"demod_amd64.s",D+"math32.go"],[("pre state and discriminator expression",D+"demod.go")],[("pre","last input sample",D+"demod.go")])
p("C13","Downsamplers emit one correct output per group of inputs",
  "The complex downsampler emits, for every consecutive group of D inputs (D at least 1), their sum; the rational downsampler accumulates inputs, advances its phase by the slow rate per input and, each time the phase reaches the fast rate, emits the sum scaled by slow/fast and subtracts the fast rate. Partial groups carry over to the next call, outputs are returned in order as a prefix of the given slice, and elements are read before they are overwritten.",
  ["inputs","histories"],"all factors, inputs, partitions into calls","One block of fixed length is tested per filter.",
  [D+"downsample.go",D+"downsample_amd64.s"],[("accumulate / emit / carry",D+"downsample.go")],
  [("now,sum,prevIndex","partial group and phase",D+"downsample.go")])
p("C14","Rotate-by-90 filters multiply by successive powers of j",
  "The rotation filters multiply the k-th complex sample of a block by j to the power k, in place and for blocks of any length, and return the slice they were given. For the interleaved integer variant a complex sample is two consecutive integers, and a trailing odd integer is left alone.",
  ["inputs"],"all block lengths and contents","One block whose length is a multiple of the period is tested.",
  [D+"util.go",D+"util_amd64.s"],[("unrolled rotation loop",D+"util.go")])
p("C15","Goertzel detectors realise the second-order recursion",
  "Each Goertzel detector runs q[n] = 2*cos(w)*q[n-1] - q[n-2] + x[n] for each target frequency, with w the centre of the DFT bin closest to it (rounding half up), on real and imaginary parts separately for complex input. Magnitude and Complex return the squared magnitude and the value of that bin for every frequency in order, without disturbing the recursion, and Reset returns the detector to its initial state.",
  ["inputs","histories"],"all frequency lists, rates, block sizes, inputs, call histories",
  "One tone and one frequency list is tested; reset completeness and complex cross terms are not.",
  [D+"goertzel.go"],[("recursion, magnitude and complex formulas, reset",D+"goertzel.go")],
  [("q1,q2,q1i,q2i","recursion state",D+"goertzel.go")])
p("C16","The sliding DFT tracks the windowed bin of the last n samples",
  "Each update of a sliding DFT of length n replaces the oldest of the last n samples, updates every tracked bin by s = (s + new - old) * exp(j*2*pi*m/n) and returns the sum of the bins weighted by the given frequency-domain window (weight 1 when none is given). The tracked bins m are the len(window) bins centred on k, wrapped into 0..n-1.",
  ["inputs","histories"],"all k in 0..n-1, windows no longer than n, inputs, histories","No test covers it; ring-buffer and bin-wrap errors need many updates.",
  [D+"sdft.go"],[("ring index, bin update, window sum",D+"sdft.go")],[("i,x,s","ring position, ring, bin values",D+"sdft.go")])
p("C17","Window functions fill every element with the named window",
  "Triangle, Hamming, Hanning, Blackman and Nuttall window functions set every element of the given slice, of any length, to the value of the named symmetric window at that index (1 for a slice of length one); the single-precision variants equal the rounded double-precision value. The frequency-domain coefficient tables are the DFT coefficients of the same windows in both precisions.",
  ["inputs"],"all lengths and indexes","No test covers windows.",
  [D+"window.go"],[("cosine-sum and triangle formulas",D+"window.go")])
p("C18","Interpolators evaluate the named polynomial on the right neighbours",
  "Each interpolator returns, for every position x and sample slice, the value of the named interpolation polynomial (linear, 4-point Hermite, optimal 2x 4-point/4th-order and 6-point/5th-order) at the fractional part of x over the neighbours of floor(x), where samples outside the slice count as zero; the linear variants return zero for positions before the first sample or past the last. The single- and double-precision variants use the same neighbours and coefficients.",
  ["inputs"],"all finite x that fit an int, all sample slices","No test covers interpolation; edge handling and single coefficients matter only for specific positions.",
  [D+"interpolate.go"],[("neighbour gather with range check, polynomial coefficients",D+"interpolate.go")])
p("C19","Fast floating arctangents stay within their error bound everywhere",
  "For every finite y and x (of magnitude that neither overflows nor underflows the intermediate ratio), the fast arctangents return an angle in the correct quadrant within 0.0102 rad (first variant) and 0.005 rad (second variant) of atan2(y, x), are odd in y, and return 0 at the origin and +-pi/2 on the imaginary axis. The fast phase helpers are these functions of a complex number's parts.",
  ["inputs"],"all finite y, x","Tests sample the unit circle only; axis cases and magnitudes are not covered.",
  [D+"math32.go",D+"math32_amd64.s"],[("octant/quadrant selection and polynomial",D+"math32.go")])
p("C20","Fixed-point arctangents stay within their error bound everywhere",
  "For every y and x of magnitude below 2^40 the fixed-point arctangents return atan2(y, x) scaled so that pi is 2^14, in the correct quadrant and within the error of the method (table quantisation for the look-up variant, the linear approximation for the fast variant), 0 at the origin, and never index outside the table or divide by zero.",
  ["inputs"],"all y, x below 2^40 in magnitude","Tests sample one circle of fixed radius; table edges, steep ratios and axes are not covered.",
  [D+"mathfixed.go"],[("ratio, table range check, quadrant fix-up; table construction",D+"mathfixed.go")],[("atanLUT","arctangent table",D+"mathfixed.go")])
p("C21","Caller-owned data is neither modified nor retained",
  "Slices a caller passes as input only (coefficients, frequency lists, windows, input sample blocks) have the same contents after the call as before, unless the same memory was also passed as the output, and later changes by the caller to them do not change the behaviour of an object built from them. Constructors therefore give equal objects when called twice with the same slices.",
  ["inputs","histories"],"all constructors and processing functions, all inputs and later caller writes",
  "Tests never look at an input slice again after the call.",
  [D+"filter.go",D+"goertzel.go",D+"sdft.go",D+"dtmf/dtmf.go",D+"conversion.go",D+"math32.go"],
  [("copies made by constructors",D+"filter.go, "+D+"sdft.go"),("window multiply into own buffer",D+"dtmf/dtmf.go")])
p("C22","Processing functions do not panic on valid arguments",
  "No filter, demodulator, downsampler, detector, interpolator, window, arctangent or phase function panics for any sample values and any slice lengths for which the output is at least as long as the input, including empty slices and arbitrary (also negative, huge or NaN) interpolation positions. Objects must have been built by their constructor with the documented sizes.",
  ["inputs"],"all sample values, lengths and positions; valid constructor arguments","Tests use regular sizes and positions only.",
  [D+"filter.go",D+"biquad.go",D+"demod.go",D+"downsample.go",D+"goertzel.go",D+"sdft.go",D+"window.go",D+"interpolate.go",D+"mathfixed.go",D+"util.go",D+"math32.go"],
  [("bounds checks and loop bounds","the listed files")])
p("C23","DTMF detection reports the strongest row and column",
  "For each block the DTMF detector multiplies at most one block of samples by the window, measures every low and high frequency from a clean state and reports key = row*columns + column for the strongest low and high frequency (the first of equals), together with the smaller of the two magnitudes. The result depends only on the block given, never on earlier blocks, and the standard keypad and frequency tables agree with it.",
  ["inputs","histories"],"all blocks, block lengths, frequency lists and call histories","No test covers the detector.",
  [D+"dtmf/dtmf.go",D+"goertzel.go"],[("window, reset, feed, argmax",D+"dtmf/dtmf.go")],[("w, detectors","window and detector state",D+"dtmf/dtmf.go")])
A="dsp/ax25/"
p("C24","Only frames with a valid FCS are delivered",
  "The AX.25 decoder returns a frame only if all octets received between the two flags, FCS included, leave the CRC-16/X.25 residue, and only if there are enough of them for a header, and none of the FCS octets appear in the frame. The CRC is the reflected CCITT polynomial with all-ones preset, for every octet sequence.",
  ["inputs"],"all bit streams","No test covers the decoder; one wrong table entry corrupts 1/256 of the octets.",
  [A+"hdlc.go",A+"crc.go"],[("length and CRC gate before parsing",A+"hdlc.go"),("table-driven CRC",A+"crc.go")])
p("C25","HDLC deframing follows flags, bit stuffing and aborts",
  "Fed one bit at a time, the decoder starts a frame at every flag 01111110, drops the zero after five ones, assembles octets least significant bit first, abandons the frame on seven consecutive ones or when it exceeds the buffer limit, and hands the collected octets over at the closing flag, which also opens the next frame. Nothing before the first flag or after an abort contributes to a frame.",
  ["inputs","histories"],"all bit streams","No test covers the decoder; stuffing and abort interact across octet boundaries.",
  [A+"hdlc.go"],[("shift register tests, octet assembly, buffer limit",A+"hdlc.go")],
  [("bitstream,inFrame,rxBits,rxBitI,rxBuf","shift register, framing state, octet under assembly, octets so far",A+"hdlc.go")])
p("C26","Standard AX.25 headers are decoded bit for bit",
  "For a valid frame with a standard header, destination, source and repeaters (until the address-extension bit ends the list) are the shifted callsign characters up to the first space and the 4-bit SSID, version/command follow the two C bits, and control octet decoding yields frame type, N(S), N(R), poll/final and the unnumbered/supervisory subtype of AX.25 2.2. PID and information are present exactly for I and UI frames and are the octets after the control field.",
  ["inputs"],"all valid frames","No test covers the parser; each field is a bit slice of one octet.",
  [A+"hdlc.go"],[("address and control field decoding",A+"hdlc.go")])
p("C27","FlexNet compressed headers are decoded bit for bit",
  "For a valid frame whose second octet has its low bit set, the destination callsign is the up to six non-zero 6-bit characters packed in octets 2 to 6 (offset by 0x20), its SSID the low four bits of octet 6, the command bit is bit 1 of octet 1, and control decoding starts at octet 7.",
  ["inputs"],"all valid frames with a compressed header","No test covers the parser; three of the characters straddle octets.",
  [A+"hdlc.go"],[("6-bit unpacking",A+"hdlc.go")])
p("C28","The AX.25 decoder is total and bounded",
  "No sequence of bits (each 0 or 1) makes the decoder panic, and its buffer never holds more than the configured maximum number of octets.",
  ["inputs","histories"],"all bit streams","No test feeds the decoder at all; malformed short frames and over-long frames are the risk.",
  [A+"hdlc.go",A+"crc.go"],[("length checks before indexing, buffer limit",A+"hdlc.go")],[("rxBuf","octets so far",A+"hdlc.go")])
p("C29","A delivered frame never changes afterwards",
  "The contents of a frame the AX.25 decoder has returned, the information field included, do not change when more bits are fed, and modifying a returned frame does not affect the decoder.",
  ["histories"],"all continuations of the bit stream after a frame","Aliasing shows only when a frame is kept while the next one arrives.",
  [A+"hdlc.go"],[("info field handed out separately from the receive buffer",A+"hdlc.go")],[("rxBuf","reused receive buffer",A+"hdlc.go")])
p("C30","Protocol code names are complete and unambiguous",
  "Every protocol identifier, frame type, unnumbered type and supervisory type constant the AX.25 package exports has the value assigned by AX.25 2.2, prints as its own distinct name, and any other value prints as its hexadecimal code; each type constant is reachable through the decoder's masking of the control octet.",
  ["inputs"],"all 256 codes of each type","No test covers the names.",
  [A+"constants.go",A+"hdlc.go"],[("name tables and String methods",A+"constants.go")])
B="borip/"
p("C31","The BorIP client survives any server reply",
  "No reply line a server may send (truncated, empty, with missing or malformed fields) and no datagram makes the BorIP client panic or index outside its data; such replies surface as errors.",
  ["inputs"],"all reply lines and datagrams","There is no test of the client; a malicious or different server is outside any sample.",
  [B+"client.go",B+"packet.go"],[("field-count checks before indexing",B+"client.go"),("length checks",B+"packet.go")])
p("C32","The BorIP client reports every failure and tracks only confirmed state",
  "Every write, read or parse failure and every reply other than OK to a BorIP client call is returned to the caller as a non-nil error; a failed call leaves the client's notion of the selected device and of streaming unchanged. Streaming is marked on only after GO, and off only after STOP, was confirmed.",
  ["inputs","fault_sequences"],"all replies and I/O failures at every call","There is no test of the client; dropped errors only matter on failing replies.",
  [B+"client.go"],[("error propagation",B+"client.go")],[("running,device","confirmed state",B+"client.go")])
p("C33","The BorIP client keeps request and reply in step",
  "Each BorIP client call sends exactly one line (the command word of that call and its formatted arguments), flushed before reading, and consumes exactly one reply line, so that every reply is matched with its own request; a call whose write failed reads nothing.",
  ["inputs","fault_sequences"],"all calls, arguments without line breaks, failures","There is no test of the client.",
  [B+"client.go"],[("single command/reply helper",B+"client.go")])
p("C34","BorIP replies are decoded into the right results",
  "Getter calls return the value after the command word of the reply; setters return the documented fields of an OK reply in order; selecting a device yields the fields of the |-separated description (serial number optional), '-' with text is an error and a bare '-' means no device. Numbers are parsed as the server formatted them.",
  ["inputs"],"all well-formed replies","There is no test of the client; swapped fields only show with distinct values.",
  [B+"client.go"],[("reply field extraction",B+"client.go")])
p("C35","Packet reader delivers each datagram's samples exactly once, in order",
  "Reading samples returns, in order and exactly once, the 16-bit little-endian I/Q pairs of each datagram (after the 4-byte header when enabled, whose flags, notification and sequence number are exposed), never more than fit the caller's slice, keeping the rest for the next call. A trailing partial sample or a datagram shorter than the header never yields a sample.",
  ["inputs","histories"],"all datagram sequences and slice sizes","There is no test of the reader; the remainder logic needs particular size combinations.",
  [B+"packet.go"],[("buffer indexes and header decode",B+"packet.go")],[("buf,bufI,bufN,header","current datagram, read position, size, last header",B+"packet.go")])
p("C36","Connections and device claims are released",
  "Dialling either returns a usable client or leaves no open connection; closing a client stops streaming and deselects the device if they were active and always closes the connection, whatever the server answers.",
  ["fault_sequences"],"all failures during dialling and closing","There is no test of the client; leaks show only on failure paths.",
  [B+"client.go"],[("close on failure paths, Close",B+"client.go")])
S="boripserver/"
p("C37","The BorIP server answers every command exactly once",
  "For every command line received, known or unknown, with or without arguments and whatever the device reports, the server sends exactly one reply line, which begins with the command word and carries the value asked for, OK for what was done, or the failure, and uses a device only while one is claimed. A connection starts with the greeting, blank lines are ignored, and the words of every other line reach the command they name.",
  ["inputs","fault_sequences"],"all command lines and device failures","The server has no tests and cannot be built here.",
  [S+"main.go"],[("one sendResponse per path",S+"main.go")],[("dev,dest,closeChan","claimed device, destination, streaming marker",S+"main.go")])
p("C38","A device is claimed by at most one session and always released",
  "A device that one session has opened cannot be opened by another until it is closed; every claim made by a session is released when the session deselects it, selects another, or ends for any reason; the in-use mark is read and written only under the device's lock, the device handle is set and cleared only under it, and every lock is released on all paths.",
  ["schedules","fault_sequences"],"all interleavings of sessions and failures","The server has no tests.",
  [S+"devices.go",S+"main.go"],[("mutex-protected inUse flag",S+"devices.go"),("release on session end",S+"main.go")],[("inUse,rtlDev","claim state",S+"devices.go")])
p("C39","The stream has well-formed packets and a clean lifecycle",
  "Each stream packet carries flags, zero notification, the little-endian sequence number incremented by one per packet, and the converted samples of the corresponding part of the device buffer; only the first packet is marked as stream start. Streaming can be stopped any number of times without failing, its socket is closed when it ends or fails to start, a session that ends stops its stream, and what the device's goroutine shares with the session is accessed under a lock.",
  ["inputs","schedules"],"all buffers and stop/go sequences","The server has no tests.",
  [S+"main.go"],[("packet loop and stop channel",S+"main.go")],[("closeChan","streaming marker and stop signal",S+"main.go")])
p("C40","Client and server agree on the wire format",
  "For the commands both implement, client and server use the same command words, status word and order of reply fields, and the same packet header layout and flag values, and the device description the server sends is one the client accepts with every field in its place.",
  ["programs"],"all messages of the protocol","Nothing tests the two against each other; they duplicate the constants.",
  [B+"client.go",B+"packet.go",S+"main.go"],[("duplicated constants and formats",B+"client.go, "+B+"packet.go, "+S+"main.go")])
p("C41","Feature detection never reports what CPU or OS lack",
  "On x86 each reported feature is exactly the architecturally defined CPUID bit of that feature; AVX and AVX2 additionally require operating-system support for both XMM and YMM state, FMA requires OSXSAVE, and leaf 7 features require that leaf. Option strings can switch features off but never on where the CPU lacks them, unknown options change nothing, and required features stay on.",
  ["inputs","configurations"],"all CPUs, OS states and option strings","The package's tests cannot be run here and see one CPU.",
  ["dsp/internal/cpu/cpu.go","dsp/internal/cpu/cpu_x86.go","dsp/internal/cpu/cpu_x86.s"],[("CPUID bit tests and option processing","dsp/internal/cpu/cpu_x86.go, dsp/internal/cpu/cpu.go")])
p("C42","Dispatching entry points reach the implementation of the same name",
  "On every architecture, a public entry point or processing method that is only a stub transfers control, with its arguments untouched, to the portable implementation of the same operation, so that platforms without an optimised routine compute what the portable one computes.",
  ["configurations"],"all stub entry points on amd64, 386, arm, arm64","Tests run on linux/amd64 only and not every operation is tested.",
  [D+"*_386.s",D+"*_amd64.s",D+"*_arm64.s",D+"*_arm.s"],[("JMP stubs","dsp/*.s")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
