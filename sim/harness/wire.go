//go:build go1.23

package main

// An independent, strict implementation of the parts of BACnet/IP that the
// simulated devices, routers and oracles need. It shares no code with the
// repository under test.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"unicode/utf16"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/null"
)

// Peer is an IPv4 endpoint.
type Peer struct {
	IP   [4]byte
	Port int
}

func (p Peer) String() string {
	return fmt.Sprintf("%d.%d.%d.%d:%d", p.IP[0], p.IP[1], p.IP[2], p.IP[3], p.Port)
}

func (p Peer) mac() []byte {
	return []byte{p.IP[0], p.IP[1], p.IP[2], p.IP[3], byte(p.Port >> 8), byte(p.Port)}
}

func (p Peer) ipString() string {
	return fmt.Sprintf("%d.%d.%d.%d", p.IP[0], p.IP[1], p.IP[2], p.IP[3])
}

// Oid is a BACnet object identifier.
type Oid struct {
	T uint32
	I uint32
}

func (o Oid) u32() uint32 { return o.T<<22 | o.I }

func oidOf(u uint32) Oid { return Oid{u >> 22, u & 0x3fffff} }

// NetAddr is a network-layer address (DNET/DADR or SNET/SADR).
type NetAddr struct {
	Net uint16
	Adr []byte
}

// Frame is a decoded BACnet/IP datagram.
type Frame struct {
	Fn      byte
	Orig    Peer // Forwarded-NPDU only
	Ctrl    byte
	Dst     *NetAddr
	Src     *NetAddr
	Hop     byte
	NetMsg  int // -1 when an APDU follows
	NetBody []byte

	PDU     byte // type nibble
	SegAcc  bool
	MaxSegs byte
	MaxApdu byte
	Invoke  byte
	Service byte
	Body    []byte
}

var errShort = errors.New("frame ends early")

// parseFrame decodes one datagram strictly.
func parseFrame(b []byte) (*Frame, error) {
	f := &Frame{NetMsg: -1}
	if len(b) < 4 {
		return nil, errShort
	}
	if b[0] != 0x81 {
		return nil, fmt.Errorf("BVLC type %#x", b[0])
	}
	f.Fn = b[1]
	if n := int(binary.BigEndian.Uint16(b[2:])); n != len(b) {
		return nil, fmt.Errorf("BVLC length %d in a datagram of %d bytes", n, len(b))
	}
	b = b[4:]
	switch f.Fn {
	case 0x0a, 0x0b, 0x09:
	case 0x04:
		if len(b) < 6 {
			return nil, errShort
		}
		copy(f.Orig.IP[:], b)
		f.Orig.Port = int(b[4])<<8 | int(b[5])
		b = b[6:]
	default:
		return nil, fmt.Errorf("BVLC function %#x", f.Fn)
	}
	if len(b) < 2 {
		return nil, errShort
	}
	if b[0] != 1 {
		return nil, fmt.Errorf("NPDU version %d", b[0])
	}
	f.Ctrl = b[1]
	if f.Ctrl&0x50 != 0 {
		return nil, fmt.Errorf("reserved NPDU control bits set: %#x", f.Ctrl)
	}
	b = b[2:]
	addr := func(dst bool) (*NetAddr, error) {
		if len(b) < 3 {
			return nil, errShort
		}
		a := &NetAddr{Net: binary.BigEndian.Uint16(b)}
		l := int(b[2])
		b = b[3:]
		if len(b) < l {
			return nil, errShort
		}
		a.Adr = append([]byte{}, b[:l]...)
		b = b[l:]
		if a.Net == 0 {
			return nil, errors.New("network number 0")
		}
		if !dst && (l == 0 || a.Net == 0xffff) {
			return nil, errors.New("source address without MAC or with the global network")
		}
		if a.Net == 0xffff && l != 0 {
			return nil, errors.New("global broadcast with a MAC address")
		}
		return a, nil
	}
	var err error
	if f.Ctrl&0x20 != 0 {
		if f.Dst, err = addr(true); err != nil {
			return nil, fmt.Errorf("DNET/DADR: %w", err)
		}
	}
	if f.Ctrl&0x08 != 0 {
		if f.Src, err = addr(false); err != nil {
			return nil, fmt.Errorf("SNET/SADR: %w", err)
		}
	}
	if f.Dst != nil {
		if len(b) < 1 {
			return nil, errShort
		}
		f.Hop = b[0]
		b = b[1:]
	}
	if f.Ctrl&0x80 != 0 {
		if len(b) < 1 {
			return nil, errShort
		}
		f.NetMsg = int(b[0])
		b = b[1:]
		if f.NetMsg >= 0x80 {
			if len(b) < 2 {
				return nil, errShort
			}
			b = b[2:]
		}
		f.NetBody = b
		return f, nil
	}
	if len(b) < 2 {
		return nil, errShort
	}
	f.PDU = b[0] & 0xf0
	switch f.PDU {
	case 0x00:
		if b[0]&0x0d != 0 {
			return nil, fmt.Errorf("confirmed request with segmentation or reserved bits: %#x", b[0])
		}
		if len(b) < 4 {
			return nil, errShort
		}
		f.SegAcc = b[0]&2 != 0
		f.MaxSegs, f.MaxApdu = b[1]>>4, b[1]&15
		if b[1]&0x80 != 0 || f.MaxApdu > 5 {
			return nil, fmt.Errorf("max-segments/max-apdu octet %#x", b[1])
		}
		f.Invoke, f.Service = b[2], b[3]
		f.Body = b[4:]
	case 0x10:
		if b[0]&0x0f != 0 {
			return nil, fmt.Errorf("unconfirmed request with reserved bits: %#x", b[0])
		}
		f.Service = b[1]
		f.Body = b[2:]
	case 0x20, 0x30, 0x50:
		if b[0]&0x0f != 0 {
			return nil, fmt.Errorf("PDU flags %#x", b[0])
		}
		if len(b) < 3 {
			return nil, errShort
		}
		f.Invoke, f.Service = b[1], b[2]
		f.Body = b[3:]
	default:
		return nil, fmt.Errorf("PDU type %#x", f.PDU)
	}
	return f, nil
}

// Builder of frames sent by simulated nodes.

func bvlc(fn byte, npdu []byte) []byte {
	n := len(npdu) + 4
	return append([]byte{0x81, fn, byte(n >> 8), byte(n)}, npdu...)
}

func bvlcFwd(orig Peer, npdu []byte) []byte {
	return bvlc(4, append(orig.mac(), npdu...))
}

func npduBytes(expect bool, dst, src *NetAddr, body []byte) []byte {
	c := byte(0)
	if expect {
		c |= 4
	}
	if dst != nil {
		c |= 0x20
	}
	if src != nil {
		c |= 8
	}
	b := []byte{1, c}
	if dst != nil {
		b = append(b, byte(dst.Net>>8), byte(dst.Net), byte(len(dst.Adr)))
		b = append(b, dst.Adr...)
	}
	if src != nil {
		b = append(b, byte(src.Net>>8), byte(src.Net), byte(len(src.Adr)))
		b = append(b, src.Adr...)
	}
	if dst != nil {
		b = append(b, 254)
	}
	return append(b, body...)
}

func npduNetMsg(src *NetAddr, typ byte, body []byte) []byte {
	c := byte(0x80)
	b := []byte{1, 0}
	if src != nil {
		c |= 8
		b = append(b, byte(src.Net>>8), byte(src.Net), byte(len(src.Adr)))
		b = append(b, src.Adr...)
	}
	b[1] = c
	b = append(b, typ)
	return append(b, body...)
}

// ---- tags

type tagHdr struct {
	Num         byte
	Ctx         bool
	Open, Close bool
	Len         int // length or, for an application boolean, the value
}

func putTag(b []byte, num byte, ctx bool, l int) []byte {
	t := byte(0)
	if ctx {
		t = 8
	}
	if num <= 14 {
		t |= num << 4
	} else {
		t |= 0xf0
	}
	if l <= 4 {
		t |= byte(l)
	} else {
		t |= 5
	}
	b = append(b, t)
	if num > 14 {
		b = append(b, num)
	}
	switch {
	case l <= 4:
	case l <= 253:
		b = append(b, byte(l))
	case l <= 65535:
		b = append(b, 254, byte(l>>8), byte(l))
	default:
		b = append(b, 255, byte(l>>24), byte(l>>16), byte(l>>8), byte(l))
	}
	return b
}

func putOpen(b []byte, num byte) []byte  { return putOC(b, num, 0x0e) }
func putClose(b []byte, num byte) []byte { return putOC(b, num, 0x0f) }
func putOC(b []byte, num byte, m byte) []byte {
	if num <= 14 {
		return append(b, num<<4|m)
	}
	return append(b, 0xf0|m, num)
}

func minU(u uint32) []byte {
	switch {
	case u < 1<<8:
		return []byte{byte(u)}
	case u < 1<<16:
		return []byte{byte(u >> 8), byte(u)}
	case u < 1<<24:
		return []byte{byte(u >> 16), byte(u >> 8), byte(u)}
	}
	return []byte{byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)}
}

func minS(v int32) []byte {
	switch {
	case v >= -128 && v < 128:
		return []byte{byte(v)}
	case v >= -32768 && v < 32768:
		return []byte{byte(v >> 8), byte(v)}
	case v >= -(1<<23) && v < 1<<23:
		return []byte{byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

func putCtxU(b []byte, num byte, u uint32) []byte {
	m := minU(u)
	return append(putTag(b, num, true, len(m)), m...)
}

func putCtxOid(b []byte, num byte, o Oid) []byte {
	return binary.BigEndian.AppendUint32(putTag(b, num, true, 4), o.u32())
}

type rd struct {
	b   []byte
	err error
}

func (r *rd) fail(f string, a ...any) {
	if r.err == nil {
		r.err = fmt.Errorf(f, a...)
	}
}

func (r *rd) take(n int) []byte {
	if r.err != nil {
		return make([]byte, n&0xffff)
	}
	if n < 0 || n > len(r.b) {
		r.fail("%w", errShort)
		return make([]byte, n&0xffff)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *rd) peek() (tagHdr, bool) {
	c := rd{b: r.b}
	h := c.tag()
	return h, c.err == nil
}

func (r *rd) tag() (h tagHdr) {
	t := r.take(1)[0]
	h.Num = t >> 4
	h.Ctx = t&8 != 0
	if h.Num == 15 {
		h.Num = r.take(1)[0]
		if h.Num < 15 || h.Num == 255 {
			r.fail("extended tag number %d", h.Num)
		}
	}
	switch l := t & 7; {
	case l <= 4:
		h.Len = int(l)
	case l == 5:
		e := r.take(1)[0]
		switch e {
		case 254:
			h.Len = int(binary.BigEndian.Uint16(r.take(2)))
		case 255:
			h.Len = int(binary.BigEndian.Uint32(r.take(4)))
		default:
			h.Len = int(e)
		}
	case !h.Ctx:
		r.fail("application tag with opening/closing bits (%#x)", t)
	case l == 6:
		h.Open = true
	default:
		h.Close = true
	}
	return
}

func (r *rd) open(num byte) {
	if h := r.tag(); r.err == nil && (!h.Open || h.Num != num) {
		r.fail("opening tag %d expected, got %+v", num, h)
	}
}

func (r *rd) close(num byte) {
	if h := r.tag(); r.err == nil && (!h.Close || h.Num != num) {
		r.fail("closing tag %d expected, got %+v", num, h)
	}
}

func (r *rd) isClose(num byte) bool {
	h, ok := r.peek()
	return ok && h.Close && h.Num == num
}

func (r *rd) isCtx(num byte) bool {
	h, ok := r.peek()
	return ok && h.Ctx && !h.Open && !h.Close && h.Num == num
}

func (r *rd) uint(n int) uint32 {
	if n < 1 || n > 4 {
		r.fail("unsigned of %d bytes", n)
		return 0
	}
	u := uint32(0)
	for _, x := range r.take(n) {
		u = u<<8 | uint32(x)
	}
	return u
}

func (r *rd) ctxU(num byte) uint32 {
	h := r.tag()
	if r.err == nil && (!h.Ctx || h.Open || h.Close || h.Num != num) {
		r.fail("context tag %d expected, got %+v", num, h)
	}
	if r.err != nil {
		return 0
	}
	return r.uint(h.Len)
}

func (r *rd) ctxOid(num byte) Oid {
	h := r.tag()
	if r.err == nil && (!h.Ctx || h.Open || h.Close || h.Num != num || h.Len != 4) {
		r.fail("object identifier with context tag %d expected, got %+v", num, h)
	}
	return oidOf(binary.BigEndian.Uint32(r.take(4)))
}

// ---- values

// Val is one BACnet value. T names its datatype.
type Val struct {
	T string `json:"t"`
	U uint64 `json:"u,omitempty"` // numbers (bit patterns for real/double)
	S string `json:"s,omitempty"`
	B []byte `json:"b,omitempty"`
	X int    `json:"x,omitempty"`    // in the context tag X-1
	H bool   `json:"hide,omitempty"` // of a type the tag alone does not tell: left out of results
}

// ctx puts a value into a context tag.
func (v Val) ctx(tag int) Val { v.X = tag + 1; return v }

// hidden marks a value that only a reader who knows the property understands.
func (v Val) hidden() Val { v.H = true; return v }

func vOpen(tag int) Val  { return Val{T: "open", U: uint64(tag)} }
func vClose(tag int) Val { return Val{T: "close", U: uint64(tag)} }

// visible are the values of a property that a result consists of.
func visible(vs []Val) []Val {
	var out []Val
	for _, v := range vs {
		if v.T != "open" && v.T != "close" && !v.H {
			out = append(out, v)
		}
	}
	return out
}

func vNull() Val            { return Val{T: "null"} }
func vUint(u uint32) Val    { return Val{T: "uint", U: uint64(u)} }
func vEnum(u uint32) Val    { return Val{T: "enum", U: uint64(u)} }
func vInt(i int32) Val      { return Val{T: "int", U: uint64(uint32(i))} }
func vReal(f float32) Val   { return Val{T: "real", U: uint64(math.Float32bits(f))} }
func vDouble(f float64) Val { return Val{T: "double", U: math.Float64bits(f)} }
func vStr(s string) Val     { return Val{T: "char", S: s} }
func vOid(o Oid) Val        { return Val{T: "oid", U: uint64(o.u32())} }
func vBool(b bool) Val {
	if b {
		return Val{T: "bool", U: 1}
	}
	return Val{T: "bool"}
}

func (v Val) String() string {
	if v.X > 0 {
		w := v
		w.X = 0
		return fmt.Sprintf("[%d]%v", v.X-1, w)
	}
	switch v.T {
	case "real":
		return fmt.Sprintf("real(%v %#x)", math.Float32frombits(uint32(v.U)), v.U)
	case "double":
		return fmt.Sprintf("double(%v)", math.Float64frombits(v.U))
	case "int":
		return fmt.Sprintf("int(%d)", int32(v.U))
	case "oid":
		return fmt.Sprintf("oid(%d,%d)", oidOf(uint32(v.U)).T, oidOf(uint32(v.U)).I)
	case "char", "ucs2":
		return fmt.Sprintf("%s(%q)", v.T, v.S)
	case "cs":
		return fmt.Sprintf("charset%d(%q)", v.U, v.S)
	case "null":
		return "null"
	case "octet", "bits", "date", "time", "dt":
		return fmt.Sprintf("%s(%d,%x)", v.T, v.U, v.B)
	}
	return fmt.Sprintf("%s(%d)", v.T, v.U)
}

// put appends the application-tagged encoding of v.
func (v Val) put(b []byte) []byte {
	num := func(tag byte, m []byte) []byte {
		if v.X > 0 {
			return append(putTag(b, byte(v.X-1), true, len(m)), m...)
		}
		return append(putTag(b, tag, false, len(m)), m...)
	}
	switch v.T {
	case "open":
		return putOpen(b, byte(v.U))
	case "close":
		return putClose(b, byte(v.U))
	case "null":
		return num(0, nil)
	case "bool":
		if v.X > 0 {
			return num(1, []byte{byte(v.U)})
		}
		return putTag(b, 1, false, int(v.U))
	case "uint":
		return num(2, minU(uint32(v.U)))
	case "int":
		return num(3, minS(int32(v.U)))
	case "real":
		return num(4, binary.BigEndian.AppendUint32(nil, uint32(v.U)))
	case "double":
		return num(5, binary.BigEndian.AppendUint64(nil, v.U))
	case "octet":
		return num(6, v.B)
	case "char":
		return num(7, append([]byte{0}, v.S...))
	case "ucs2":
		m := []byte{4}
		for _, u := range utf16.Encode([]rune(v.S)) {
			m = append(m, byte(u>>8), byte(u))
		}
		return num(7, m)
	case "cs": // text in another character set: UCS-4 (3) or ISO 8859-1 (5)
		m := []byte{byte(v.U)}
		for _, c := range v.S {
			if v.U == 3 {
				m = append(m, byte(c>>24), byte(c>>16), byte(c>>8))
			}
			m = append(m, byte(c))
		}
		return num(7, m)
	case "bits":
		// B holds whole octets as they travel; U is the number of unused bits.
		return num(8, append([]byte{byte(v.U)}, v.B...))
	case "enum":
		return num(9, minU(uint32(v.U)))
	case "date":
		return num(10, v.B)
	case "time":
		return num(11, v.B)
	case "oid":
		return num(12, binary.BigEndian.AppendUint32(nil, uint32(v.U)))
	case "dt": // BACnetTimeStamp, choice datetime
		b = putOpen(b, 2)
		b = Val{T: "date", B: v.B[:4]}.put(b)
		b = Val{T: "time", B: v.B[4:]}.put(b)
		return putClose(b, 2)
	}
	panic("harness: value type " + v.T)
}

// val decodes one application-tagged primitive strictly.
func (r *rd) val() (v Val) {
	h := r.tag()
	if r.err != nil {
		return
	}
	if h.Ctx {
		r.fail("application tag expected, got %+v", h)
		return
	}
	want := func(n int) {
		if h.Len != n {
			r.fail("application tag %d with length %d, want %d", h.Num, h.Len, n)
		}
	}
	switch h.Num {
	case 0:
		want(0)
		v.T = "null"
	case 1:
		v.T = "bool"
		if h.Len > 1 {
			r.fail("boolean %d", h.Len)
		}
		v.U = uint64(h.Len)
	case 2:
		v.T = "uint"
		v.U = uint64(r.uint(h.Len))
	case 3:
		v.T = "int"
		if h.Len < 1 || h.Len > 4 {
			r.fail("signed of %d bytes", h.Len)
			return
		}
		m := r.take(h.Len)
		x := int32(int8(m[0]))
		for _, y := range m[1:] {
			x = x<<8 | int32(y)
		}
		v.U = uint64(uint32(x))
	case 4:
		want(4)
		v.T = "real"
		v.U = uint64(binary.BigEndian.Uint32(r.take(4)))
	case 5:
		want(8)
		v.T = "double"
		v.U = binary.BigEndian.Uint64(r.take(8))
	case 6:
		v.T = "octet"
		v.B = append([]byte{}, r.take(h.Len)...)
	case 7:
		if h.Len < 1 {
			r.fail("character string without encoding octet")
			return
		}
		m := r.take(h.Len)
		if r.err != nil {
			return
		}
		switch m[0] {
		case 0:
			v.T = "char"
			v.S = string(m[1:])
		case 4:
			v.T = "ucs2"
			if len(m)%2 != 1 {
				r.fail("odd UCS-2 string")
				return
			}
			var us []uint16
			for i := 1; i < len(m); i += 2 {
				us = append(us, uint16(m[i])<<8|uint16(m[i+1]))
			}
			v.S = string(utf16.Decode(us))
		default:
			r.fail("character set %d", m[0])
		}
	case 8:
		v.T = "bits"
		if h.Len < 1 {
			r.fail("bit string of length 0")
			return
		}
		m := r.take(h.Len)
		v.U = uint64(m[0])
		v.B = append([]byte{}, m[1:]...)
	case 9:
		v.T = "enum"
		v.U = uint64(r.uint(h.Len))
	case 10:
		want(4)
		v.T = "date"
		v.B = append([]byte{}, r.take(4)...)
	case 11:
		want(4)
		v.T = "time"
		v.B = append([]byte{}, r.take(4)...)
	case 12:
		want(4)
		v.T = "oid"
		v.U = uint64(binary.BigEndian.Uint32(r.take(4)))
	default:
		r.fail("application tag %d", h.Num)
	}
	return
}

func (v Val) eq(w Val) bool {
	return v.T == w.T && v.U == w.U && v.S == w.S && string(v.B) == string(w.B) && v.X == w.X
}

// goval is the Go value a user passes to write v.
func (v Val) goval() interface{} {
	switch v.T {
	case "null":
		return null.Null{}
	case "bool":
		return v.U != 0
	case "uint":
		return uint32(v.U)
	case "int":
		return int32(v.U)
	case "real":
		return math.Float32frombits(uint32(v.U))
	case "double":
		return math.Float64frombits(v.U)
	case "char":
		return v.S
	case "enum":
		return btypes.Enumerated(uint32(v.U))
	case "oid":
		o := oidOf(uint32(v.U))
		return btypes.ObjectID{Type: btypes.ObjectType(o.T), Instance: btypes.ObjectInstance(o.I)}
	}
	panic("harness: goval of " + v.T)
}

func dateOf(b []byte) btypes.Date {
	y := int(b[0]) + 1900 // clause 20.2.12: year minus 1900
	if b[0] == 0xff {
		y = btypes.UnspecifiedTime
	}
	return btypes.Date{Year: y, Month: int(b[1]), Day: int(b[2]), DayOfWeek: btypes.DayOfWeek(b[3])}
}

func timeOf(b []byte) btypes.Time {
	return btypes.Time{Hour: int(b[0]), Minute: int(b[1]), Second: int(b[2]), Millisecond: int(b[3]) * 10}
}

// matches compares a value the library returned with the value on the wire.
func (v Val) matches(g interface{}) bool {
	switch v.T {
	case "null":
		_, ok := g.(null.Null)
		return ok
	case "bool":
		x, ok := g.(bool)
		return ok && x == (v.U != 0)
	case "uint", "enum":
		x, ok := g.(uint32)
		return ok && x == uint32(v.U)
	case "int":
		x, ok := g.(int32)
		return ok && x == int32(v.U)
	case "real":
		x, ok := g.(float32)
		return ok && (math.Float32bits(x) == uint32(v.U) || x != x && math.Float32frombits(uint32(v.U)) != math.Float32frombits(uint32(v.U)))
	case "double":
		x, ok := g.(float64)
		return ok && (math.Float64bits(x) == v.U || x != x && math.Float64frombits(v.U) != math.Float64frombits(v.U))
	case "octet":
		x, ok := g.([]byte)
		return ok && string(x) == string(v.B)
	case "char", "ucs2", "cs":
		x, ok := g.(string)
		return ok && x == v.S
	case "bits":
		x, ok := g.(*btypes.BitString)
		if !ok {
			return false
		}
		n := len(v.B)*8 - int(v.U)
		if x == nil {
			return n == 0
		}
		got := x.GetValue()
		if len(got) != n {
			return false
		}
		for i := range got {
			if got[i] != (v.B[i/8]&(0x80>>(i%8)) != 0) {
				return false
			}
		}
		return true
	case "date":
		x, ok := g.(btypes.Date)
		return ok && x == dateOf(v.B)
	case "time":
		x, ok := g.(btypes.Time)
		return ok && x == timeOf(v.B)
	case "oid":
		x, ok := g.(btypes.ObjectID)
		o := oidOf(uint32(v.U))
		return ok && uint32(x.Type) == o.T && uint32(x.Instance) == o.I
	case "dt":
		x, ok := g.(*btypes.DataTime)
		return ok && x != nil && x.Date == dateOf(v.B[:4]) && x.Time == timeOf(v.B[4:])
	}
	return false
}

// matchesList compares a property value (possibly a list) as the library returns it.
func matchesList(vs []Val, g interface{}) bool {
	vs = visible(vs)
	if len(vs) == 1 {
		return vs[0].matches(g)
	}
	l, ok := g.([]interface{})
	if !ok {
		return len(vs) == 0 && g == nil
	}
	if len(l) != len(vs) {
		return false
	}
	for i := range l {
		if !vs[i].matches(l[i]) {
			return false
		}
	}
	return true
}

func show(g interface{}) string {
	if b, ok := g.(*btypes.BitString); ok && b != nil {
		return fmt.Sprintf("bits(%d,%x)", b.BitUsed, b.Value)
	}
	if l, ok := g.([]interface{}); ok {
		s := "["
		for i, x := range l {
			if i > 0 {
				s += " "
			}
			if i > 20 {
				s += "..."
				break
			}
			s += show(x)
		}
		return s + "]"
	}
	s := fmt.Sprintf("%T(%+v)", g, g)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// ---- service requests

// PropRef is one property reference of a request, with its value for writes.
type PropRef struct {
	P   uint32 `json:"p"`
	Idx int64  `json:"i"` // -1: no index
	V   []Val  `json:"v,omitempty"`
	Pri uint32 `json:"pri,omitempty"`
}

// Spec is one object of a request.
type Spec struct {
	O Oid       `json:"o"`
	P []PropRef `json:"p"`
}

const (
	svcRP  = 12
	svcRPM = 14
	svcWP  = 15
	svcWPM = 16
)

// parseRequest decodes the service parameters of a confirmed request.
func parseRequest(svc byte, body []byte) ([]Spec, error) {
	r := &rd{b: body}
	var out []Spec
	vals := func(closing byte) (vs []Val) {
		for r.err == nil && !r.isClose(closing) {
			vs = append(vs, r.val())
		}
		return
	}
	switch svc {
	case svcRP, svcWP:
		s := Spec{O: r.ctxOid(0)}
		p := PropRef{P: r.ctxU(1), Idx: -1}
		if r.err == nil && r.isCtx(2) {
			p.Idx = int64(r.ctxU(2))
		}
		if svc == svcWP {
			r.open(3)
			p.V = vals(3)
			r.close(3)
			if len(r.b) > 0 {
				p.Pri = r.ctxU(4)
				if r.err == nil && (p.Pri < 1 || p.Pri > 16) {
					r.fail("priority %d", p.Pri)
				}
			}
		}
		s.P = []PropRef{p}
		out = append(out, s)
	case svcRPM, svcWPM:
		for r.err == nil && len(r.b) > 0 {
			s := Spec{O: r.ctxOid(0)}
			r.open(1)
			for r.err == nil && !r.isClose(1) {
				p := PropRef{P: r.ctxU(0), Idx: -1}
				if r.err == nil && r.isCtx(1) {
					p.Idx = int64(r.ctxU(1))
				}
				if svc == svcWPM && r.err == nil {
					r.open(2)
					p.V = vals(2)
					r.close(2)
					if r.err == nil && r.isCtx(3) {
						p.Pri = r.ctxU(3)
						if r.err == nil && (p.Pri < 1 || p.Pri > 16) {
							r.fail("priority %d", p.Pri)
						}
					}
				}
				s.P = append(s.P, p)
			}
			r.close(1)
			if r.err == nil && len(s.P) == 0 {
				r.fail("object without property references")
			}
			out = append(out, s)
		}
		if r.err == nil && len(out) == 0 {
			r.fail("request without objects")
		}
	default:
		return nil, fmt.Errorf("confirmed service %d", svc)
	}
	if r.err == nil && len(r.b) > 0 {
		r.fail("%d trailing bytes", len(r.b))
	}
	return out, r.err
}

// parseWhoIs decodes Who-Is parameters; low is -1 without limits.
func parseWhoIs(body []byte) (low, high int64, err error) {
	if len(body) == 0 {
		return -1, -1, nil
	}
	r := &rd{b: body}
	low = int64(r.ctxU(0))
	high = int64(r.ctxU(1))
	if r.err == nil && len(r.b) > 0 {
		r.fail("%d trailing bytes", len(r.b))
	}
	if r.err == nil && (low > 4194303 || high > 4194303) {
		r.fail("device instance limit above 4194303")
	}
	return low, high, r.err
}

// IAmInfo is the content of an I-Am.
type IAmInfo struct {
	ID      Oid    `json:"id"`
	MaxApdu uint32 `json:"max"`
	Seg     uint32 `json:"seg"`
	Vendor  uint32 `json:"ven"`
}

func parseIAm(body []byte) (i IAmInfo, err error) {
	r := &rd{b: body}
	get := func(t string) uint32 {
		v := r.val()
		if r.err == nil && v.T != t {
			r.fail("I-Am: %s expected, got %v", t, v)
		}
		return uint32(v.U)
	}
	i.ID = oidOf(get("oid"))
	i.MaxApdu = get("uint")
	i.Seg = get("enum")
	i.Vendor = get("uint")
	if r.err == nil && len(r.b) > 0 {
		r.fail("%d trailing bytes", len(r.b))
	}
	return i, r.err
}

func (i IAmInfo) apdu() []byte {
	b := []byte{0x10, 0}
	b = vOid(i.ID).put(b)
	b = vUint(i.MaxApdu).put(b)
	b = vEnum(i.Seg).put(b)
	return vUint(i.Vendor).put(b)
}

// ---- replies

func errorAPDU(invoke, svc byte, class, code uint32) []byte {
	b := []byte{0x50, invoke, svc}
	if svc == svcWPM {
		// WritePropertyMultiple-Error: [0] Error, [1] objectPropertyReference
		b = putOpen(b, 0)
		b = vEnum(class).put(b)
		b = vEnum(code).put(b)
		b = putClose(b, 0)
		b = putOpen(b, 1)
		b = putCtxOid(b, 0, Oid{0, 1})
		b = putCtxU(b, 1, 85)
		return putClose(b, 1)
	}
	b = vEnum(class).put(b)
	return vEnum(code).put(b)
}

func rpAck(invoke byte, o Oid, p PropRef, vs []Val) []byte {
	b := []byte{0x30, invoke, svcRP}
	b = putCtxOid(b, 0, o)
	b = putCtxU(b, 1, p.P)
	if p.Idx >= 0 {
		b = putCtxU(b, 2, uint32(p.Idx))
	}
	b = putOpen(b, 3)
	for _, v := range vs {
		b = v.put(b)
	}
	return putClose(b, 3)
}

// RpmItem is one property of a ReadPropertyMultiple answer.
type RpmItem struct {
	P           PropRef
	V           []Val
	Err         bool
	Class, Code uint32
}

func rpmAck(invoke byte, objs []Oid, items [][]RpmItem) []byte {
	b := []byte{0x30, invoke, svcRPM}
	for i, o := range objs {
		b = putCtxOid(b, 0, o)
		b = putOpen(b, 1)
		for _, it := range items[i] {
			b = putCtxU(b, 2, it.P.P)
			if it.P.Idx >= 0 {
				b = putCtxU(b, 3, uint32(it.P.Idx))
			}
			if it.Err {
				b = putOpen(b, 5)
				b = vEnum(it.Class).put(b)
				b = vEnum(it.Code).put(b)
				b = putClose(b, 5)
				continue
			}
			b = putOpen(b, 4)
			for _, v := range it.V {
				b = v.put(b)
			}
			b = putClose(b, 4)
		}
		b = putClose(b, 1)
	}
	return b
}
