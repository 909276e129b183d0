package main

import (
	"encoding/binary"
	"errors"
	"io"
	"reflect"
	"sync/atomic"

	"github.com/go-restruct/restruct"
)

// Custom codecs whose behaviour the specification knows (Codec.tla, CuEnc, CuDec).

// errCustom is the error of the codec of the named type.
type errCustom string

func (e errCustom) Error() string { return "custom codec " + string(e) + " refuses" }

// why tells which of the errors that are known by their identity err is.
func why(err error) string {
	var e errCustom
	switch {
	case errors.As(err, &e):
		return string(e)
	case errors.Is(err, restruct.ErrInvalidSize):
		return "size"
	case errors.Is(err, restruct.ErrInvalidSizeOf):
		return "sizeof"
	case errors.Is(err, restruct.ErrInvalidSizeFrom):
		return "sizefrom"
	case errors.Is(err, restruct.ErrInvalidBits):
		return "bits"
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "eof"
	}
	return ""
}

// custCalls counts Pack and Unpack calls of the current operation.
var custCalls atomic.Int64

func ordMark(o binary.ByteOrder) byte {
	if o.Uint16([]byte{1, 2}) == 0x0102 {
		return 1
	}
	return 2
}

type cuBody struct {
	D   []byte
	Ord uint8
	Rem uint8
}

func (c *cuBody) pack(nm errCustom, buf []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	left := len(buf)
	if len(c.D) > 0 && c.D[0] == 0xEE {
		return nil, nm
	}
	buf[0], buf[1], buf[2] = byte(len(c.D)), ordMark(o), byte(left)
	copy(buf[3:], c.D)
	return buf[3+len(c.D):], nil
}
func (c *cuBody) unpack(nm errCustom, buf []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	if len(buf) < 3 || buf[0] > 128 || len(buf) < 3+int(buf[0]) {
		return nil, nm
	}
	n := int(buf[0])
	if n > 0 && buf[3] == 0xEE {
		return nil, nm
	}
	c.D = append([]byte{}, buf[3:3+n]...)
	c.Ord, c.Rem = ordMark(o), byte(len(buf))
	return buf[3+n:], nil
}

// CuP has pointer receivers.
type CuP struct{ cuBody cuBody }

func (c *CuP) SizeOf() int { return 3 + len(c.cuBody.D) }
func (c *CuP) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return c.cuBody.pack("CuP", b, o)
}
func (c *CuP) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return c.cuBody.unpack("CuP", b, o)
}

// CuV packs by value, unpacks by pointer.  It uses the library itself for that.
type CuV struct{ cuBody cuBody }

type cuInner struct {
	N uint8 `struct:"sizeof=D"`
	O uint8
	R uint8
	D []byte
}

func (c CuV) SizeOf() int {
	n, err := restruct.SizeOf(&cuInner{D: c.cuBody.D})
	if err != nil {
		return -1
	}
	return n
}
func (c CuV) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	if len(c.cuBody.D) > 0 && c.cuBody.D[0] == 0xEE {
		return nil, errCustom("CuV")
	}
	p, err := restruct.Pack(o, &cuInner{O: ordMark(o), R: byte(len(b)), D: c.cuBody.D})
	if err != nil {
		return nil, errCustom("CuV")
	}
	return b[copy(b, p):], nil
}
func (c *CuV) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	var i cuInner
	if err := restruct.Unpack(b, o, &i); err != nil {
		return nil, errCustom("CuV")
	}
	if i.N > 128 || i.N > 0 && i.D[0] == 0xEE {
		return nil, errCustom("CuV")
	}
	c.cuBody = cuBody{append([]byte{}, i.D...), ordMark(o), byte(len(b))}
	return b[3+int(i.N):], nil
}

// CuB reports its size in bits; its SizeOf (wrong on purpose) must not be used.
type CuB struct{ cuBody cuBody }

func (c *CuB) BitSize() int { return 8 * (3 + len(c.cuBody.D)) }
func (c *CuB) SizeOf() int  { return 1000 }
func (c *CuB) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return c.cuBody.pack("CuB", b, o)
}
func (c *CuB) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return c.cuBody.unpack("CuB", b, o)
}

// CuN is a named integer.
type CuN uint16

func (c CuN) SizeOf() int { return 3 }
func (c CuN) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	if c>>8 == 0xEE {
		return nil, errCustom("CuN")
	}
	b[0], b[1], b[2] = ordMark(o), byte(c>>8), byte(c)
	return b[3:], nil
}
func (c *CuN) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	if len(b) < 3 || b[1] == 0xEE {
		return nil, errCustom("CuN")
	}
	*c = CuN(b[1])<<8 | CuN(b[2])
	return b[3:], nil
}

// CuA is a named array.
type CuA [2]byte

func (c *CuA) SizeOf() int { return 3 }
func (c *CuA) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	b[0], b[1], b[2] = c[1], c[0], ordMark(o)
	return b[3:], nil
}
func (c *CuA) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	if len(b) < 3 {
		return nil, errCustom("CuA")
	}
	c[0], c[1] = b[1], b[0]
	return b[3:], nil
}

// CuS is a named slice.
type CuS []byte

func (c CuS) SizeOf() int { return 1 + len(c) }
func (c CuS) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	b[0] = byte(len(c))
	copy(b[1:], c)
	return b[1+len(c):], nil
}
func (c *CuS) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	if len(b) < 1 || len(b) < 1+int(b[0]) {
		return nil, errCustom("CuS")
	}
	*c = append(CuS{}, b[1:1+int(b[0])]...)
	return b[1+int(b[0]):], nil
}

// CuU only unpacks itself.
type CuU uint16

func (c *CuU) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	if len(b) < 2 || b[0] == 0xEE {
		return nil, errCustom("CuU")
	}
	*c = CuU(b[1])<<8 | CuU(255-b[0])
	return b[2:], nil
}

// CuT is a struct that only unpacks itself.
type CuT struct {
	A uint8
	B uint16
}

func (c *CuT) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	if len(b) < 2 || b[0] == 0xEE {
		return nil, errCustom("CuT")
	}
	c.A, c.B = b[1], uint16(ordMark(o))<<8|uint16(b[0])
	return b[2:], nil
}

// CuW only packs itself.
type CuW uint16

func (c CuW) SizeOf() int { return 3 }
func (c CuW) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	if c>>8 == 0xEE {
		return nil, errCustom("CuW")
	}
	b[0], b[1], b[2] = ordMark(o), byte(c>>8), byte(c)
	return b[3:], nil
}

// CuY is a struct that only packs itself.
type CuY struct {
	A uint8
	B uint16
}

func (c *CuY) SizeOf() int { return 4 }
func (c *CuY) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	custCalls.Add(1)
	if c.A == 0xEE {
		return nil, errCustom("CuY")
	}
	b[0], b[1], b[2], b[3] = ordMark(o), byte(c.B>>8), byte(c.B), c.A
	return b[4:], nil
}

// CuZ only knows its size, which is what it would be anyway.
type CuZ uint16

func (c CuZ) BitSize() int { return 16 }

// partial is a type that does one of the two by itself.
func partial(nm string) *T {
	t := strct(xfield("A", "n", prim("uint8")), xfield("B", "n", prim("uint16")))
	if nm != "CuT" && nm != "CuY" {
		t = prim("uint16")
	}
	t.Nm = nm
	return t
}

// Named basic types.
type (
	Nbool    bool
	Nint8    int8
	Nint16   int16
	Nint32   int32
	Nint64   int64
	Nuint8   uint8
	Nuint16  uint16
	Nuint32  uint32
	Nuint64  uint64
	Nfloat32 float32
	Nfloat64 float64
	Nstring  string
)

func init() {
	for _, v := range []any{CuP{}, CuV{}, CuB{}, CuN(0), CuA{}, CuS{}, CuU(0), CuT{}, CuW(0), CuY{}, CuZ(0), Nbool(false), Nint8(0), Nint16(0), Nint32(0), Nint64(0),
		Nuint8(0), Nuint16(0), Nuint32(0), Nuint64(0), Nfloat32(0), Nfloat64(0), Nstring("")} {
		t := reflect.TypeOf(v)
		goTypes[t.Name()] = t
	}
}

// CuR decodes itself by value.
type CuR struct{ p *cuBody }

func (c CuR) SizeOf() int { return 3 + len(c.p.D) }
func (c CuR) Pack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return c.p.pack("CuR", b, o)
}
func (c CuR) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) {
	return c.p.unpack("CuR", b, o)
}

func init() { goTypes["CuR"] = reflect.TypeOf(CuR{}) }
