package spec

import "fmt"

// AX.25 as received over HDLC.

type Address struct {
	Callsign string
	SSID     int
}

type Frame struct {
	Source           Address
	Destination      Address
	Repeaters        []Address
	V1               bool
	Command          bool
	Type             byte
	SendSeq, RecvSeq int
	PollFinal        bool
	UnnumberedType   byte
	SupervisoryType  byte
	PID              byte
	Info             []byte
}

type hdlc struct {
	last    byte // the last eight bits, newest lowest
	open    bool // a flag has been seen and no abort since
	n       int  // bits collected of the next octet
	octet   byte
	data    []byte
	maxData int
}

// FCS is the CRC of ITU-T X.25 over all octets, the frame check sequence
// included, before complementing.
func FCS(data []byte) bool {
	crc := uint16(0xffff)
	for _, b := range data {
		crc ^= uint16(b)
		for i := 0; i < 8; i++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0x8408
			} else {
				crc >>= 1
			}
		}
	}
	return crc == 0xf0b8
}

func newDecoder() *hdlc { return &hdlc{data: make([]byte, 0, 512), maxData: 512} }

// next takes one bit; it returns the octets of a frame at its closing flag.
func (h *hdlc) next(b byte) []byte {
	h.last = h.last<<1 | b
	switch {
	case h.last == 0x7e:
		var f []byte
		if h.open {
			f = append([]byte{}, h.data...)
		}
		h.open, h.n, h.octet, h.data = true, 0, 0, h.data[:0]
		return f
	case h.last&0x7f == 0x7f:
		h.open = false
	case h.open && h.last&0x3f != 0x3e:
		h.octet = h.octet>>1 | b<<7
		h.n++
		if h.n == 8 {
			if len(h.data) >= h.maxData {
				h.open = false
			} else {
				h.data = append(h.data, h.octet)
				h.n, h.octet = 0, 0
			}
		}
	}
	return nil
}

func address(b []byte) Address {
	var c []byte
	for i := 0; i < 6; i++ {
		if b[i]>>1 == 0x20 {
			break
		}
		c = append(c, b[i]>>1)
	}
	return Address{Callsign: string(c), SSID: int(b[6] >> 1 & 15)}
}

// parse decodes the octets between two flags.
func parse(d []byte) *Frame {
	if len(d) < 10 || !FCS(d) {
		return nil
	}
	b := d[:len(d)-2]
	f := &Frame{V1: true}
	if b[1]&1 != 0 {
		f.V1 = false
		f.Command = b[1]&2 != 0
		packed := [6]byte{
			b[2] >> 2,
			(b[2]<<4 | b[3]>>4) & 0x3f,
			(b[3]<<2 | b[4]>>6) & 0x3f,
			b[4] & 0x3f,
			b[5] >> 2,
			(b[5]<<4 | b[6]>>4) & 0x3f,
		}
		var call []byte
		for _, c := range packed {
			if c != 0 {
				call = append(call, c+0x20)
			}
		}
		if len(call) > 0 {
			f.Destination = Address{string(call), int(b[6] & 15)}
		}
		b = b[7:]
	} else {
		if len(b) < 15 {
			return nil
		}
		if (b[6]^b[13])&0x80 != 0 {
			f.V1 = false
			f.Command = b[6]&0x80 != 0
		}
		f.Destination = address(b[:7])
		f.Source = address(b[7:14])
		o := 14
		for b[o-1]&1 == 0 && len(b)-o > 7 {
			f.Repeaters = append(f.Repeaters, address(b[o:]))
			o += 7
		}
		b = b[o:]
	}
	if len(b) == 0 {
		return f
	}
	c := b[0]
	f.PollFinal = c&0x10 != 0
	switch {
	case c&1 == 0:
		f.Type = 0
		f.SendSeq = int(c >> 1 & 7)
		f.RecvSeq = int(c >> 5)
	case c&2 == 0:
		f.Type = 1
		f.SupervisoryType = c & 15
		f.RecvSeq = int(c >> 5)
	default:
		f.Type = 2
		f.UnnumberedType = c &^ 0x10
	}
	if len(b) > 1 && (f.Type == 0 || f.Type == 2 && f.UnnumberedType == 3) {
		f.PID = b[1]
		f.Info = b[2:]
	}
	return f
}

func (h *hdlc) feed(b byte) *Frame {
	d := h.next(b)
	if d == nil {
		return nil
	}
	return parse(d)
}

// AX25 decodes a stream of bits and returns the frame its last bit completes.
func AX25(bits []bool, last bool) *Frame {
	h := newDecoder()
	for _, b := range bits {
		h.next(bit(b))
	}
	return h.feed(bit(last))
}

func Accepts(bits []bool, last bool) bool { return AX25(bits, last) != nil }

func Header(bits []bool, last bool) (Address, Address, bool, bool) {
	f := AX25(bits, last)
	if f == nil {
		return Address{}, Address{}, false, false
	}
	return f.Destination, f.Source, f.V1, f.Command
}

func Control(bits []bool, last bool) (byte, int, int, bool, byte, byte, byte) {
	f := AX25(bits, last)
	if f == nil {
		return 0, 0, 0, false, 0, 0, 0
	}
	return f.Type, f.SendSeq, f.RecvSeq, f.PollFinal, f.UnnumberedType, f.SupervisoryType, f.PID
}

func Info(bits []bool, last bool) []byte {
	f := AX25(bits, last)
	if f == nil {
		return nil
	}
	return f.Info
}

func Repeaters(bits []bool, last bool) []Address {
	f := AX25(bits, last)
	if f == nil {
		return nil
	}
	return f.Repeaters
}

func bit(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func PID(v byte) string {
	switch v {
	case 0x01:
		return "ISO 8208/CCITT X.25 PLP"
	case 0x06:
		return "Compressed TCP/IP. RFC 1144"
	case 0x07:
		return "Uncompressed TCP/IP"
	case 0x08:
		return "Segmentation fragment"
	case 0xc3:
		return "TEXNET database protocol"
	case 0xc4:
		return "Link Quality Protocol"
	case 0xca:
		return "Appletalk"
	case 0xcb:
		return "Appletalk ARP"
	case 0xcc:
		return "ARPA Internet Protocol"
	case 0xcd:
		return "ARPA Address Resolution"
	case 0xce:
		return "FlexNet"
	case 0xcf:
		return "NET/ROM"
	case 0xf0:
		return "No Layer 3 Protocol Implemented"
	}
	return fmt.Sprintf("%02x", int(v))
}

func FrameType(v byte) string {
	switch v {
	case 0:
		return "I"
	case 1:
		return "S"
	case 2:
		return "U"
	}
	return fmt.Sprintf("%02x", int(v))
}

func Unnumbered(v byte) string {
	switch v {
	case 0x6f:
		return "SABME"
	case 0x2f:
		return "SABM"
	case 0x43:
		return "DISC"
	case 0x0f:
		return "DM"
	case 0x63:
		return "UA"
	case 0x87:
		return "FRMR"
	case 0x03:
		return "UI"
	case 0xaf:
		return "XID"
	case 0xe3:
		return "TEST"
	}
	return fmt.Sprintf("%02x", int(v))
}

func Supervisory(v byte) string {
	switch v {
	case 0x1:
		return "RR"
	case 0x5:
		return "RNR"
	case 0x9:
		return "REJ"
	case 0xd:
		return "SREJ"
	}
	return fmt.Sprintf("%02x", int(v))
}

func AddressText(c string, n int) string { return fmt.Sprintf("%s-%d", c, n) }

// Codes of AX.25 2.2, in the order of the driver.
func Codes() ([]byte, []byte, []byte, []byte) {
	return []byte{0x01, 0x06, 0x07, 0x08, 0xc3, 0xc4, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xf0},
		[]byte{0, 1, 2},
		[]byte{0x6f, 0x2f, 0x43, 0x0f, 0x63, 0x87, 0x03, 0xaf, 0xe3},
		[]byte{1, 5, 9, 13}
}

// Total is any function of the bits that returns.
func Bounded(bits []bool, last bool) {}
