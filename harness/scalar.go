package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"strings"

	. "github.com/gagliardetto/binary"
)

var encs = []Encoding{EncodingBin, EncodingBorsh, EncodingCompactU16}
var orders = []binary.ByteOrder{binary.LittleEndian, binary.BigEndian}

func lenOK(enc Encoding, n int) bool {
	switch enc {
	case EncodingBin:
		return n >= 0
	case EncodingBorsh:
		return 0 <= n && n <= math.MaxUint32
	}
	return compactOK(n)
}

// res is what the specification says about one read.
type res struct {
	ok     bool
	lax    bool // success and value unspecified (narrow varint of a wider value)
	size   int
	val    interface{}
	failAt []int // other positions (relative) a failing read may leave
}
type rop struct {
	name   string
	groups string
	order  bool
	arg    bool
	do     func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error)
	spec   func(data []byte, pos int, enc Encoding, o binary.ByteOrder, n int) res
}

func fixed(n int, f func(d []byte, p int, o binary.ByteOrder) interface{}) func([]byte, int, Encoding, binary.ByteOrder, int) res {
	return func(data []byte, pos int, enc Encoding, o binary.ByteOrder, _ int) res {
		if len(data)-pos < n {
			return res{}
		}
		return res{ok: true, size: n, val: f(data, pos, o)}
	}
}
func varspec(signed bool, conv func(u uint64) (interface{}, bool)) func([]byte, int, Encoding, binary.ByteOrder, int) res {
	return func(data []byte, pos int, enc Encoding, o binary.ByteOrder, _ int) res {
		u, n := readUvarint(data[pos:])
		if n == 0 {
			return res{}
		}
		v, fits := conv(u)
		return res{ok: true, size: n, val: v, lax: !fits}
	}
}
func bytesSpec(f func(b []byte) interface{}) func([]byte, int, Encoding, binary.ByteOrder, int) res {
	return func(data []byte, pos int, enc Encoding, _ binary.ByteOrder, _ int) res {
		v, n := readLen(enc, data, pos)
		raw := rawLen(enc, data, pos)
		if n > 0 && v <= len(data)-pos-n {
			return res{ok: true, size: n + v, val: f(data[pos+n : pos+n+v])}
		}
		r := res{}
		if raw > 0 {
			r.failAt = []int{raw}
		}
		return r
	}
}
func nSpec(peek bool, limit bool) func([]byte, int, Encoding, binary.ByteOrder, int) res {
	return func(data []byte, pos int, enc Encoding, _ binary.ByteOrder, n int) res {
		if n < 0 || n > len(data)-pos || limit && n > math.MaxInt32 {
			return res{}
		}
		s := n
		if peek {
			s = 0
		}
		return res{ok: true, size: s, val: append([]byte{}, data[pos:pos+n]...)}
	}
}

type u128 struct{ Hi, Lo uint64 }

func utf8Safe(b []byte) string {
	return strings.Map(func(r rune) rune {
		return r // strings.Map turns each invalid byte into U+FFFD
	}, string(b))
}

// through decodes a library type with the reflective entry point.
func through(mk func() interface{}, get func(p interface{}) interface{}) func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
	return func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		p := mk()
		err := d.Decode(p)
		return get(p), err
	}
}

var rops = []rop{
	{"ReadByte", "C03", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadByte(); return v, e },
		fixed(1, func(d []byte, p int, o binary.ByteOrder) interface{} { return d[p] })},
	{"ReadUint8", "C03", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadUint8(); return v, e },
		fixed(1, func(d []byte, p int, o binary.ByteOrder) interface{} { return d[p] })},
	{"ReadInt8", "C03", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadInt8(); return v, e },
		fixed(1, func(d []byte, p int, o binary.ByteOrder) interface{} { return int8(d[p]) })},
	{"ReadBool", "C03", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadBool(); return v, e },
		fixed(1, func(d []byte, p int, o binary.ByteOrder) interface{} { return d[p] != 0 })},
	{"Bool.Unmarshal", "C03", false, false, through(func() interface{} { return new(Bool) }, func(p interface{}) interface{} { return bool(*p.(*Bool)) }),
		fixed(1, func(d []byte, p int, o binary.ByteOrder) interface{} { return d[p] != 0 })},
	{"ReadUint16", "C03", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadUint16(o); return v, e },
		fixed(2, func(d []byte, p int, o binary.ByteOrder) interface{} { return get16(d, p, o) })},
	{"ReadInt16", "C03", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadInt16(o); return v, e },
		fixed(2, func(d []byte, p int, o binary.ByteOrder) interface{} { return int16(get16(d, p, o)) })},
	{"ReadUint32", "C03", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadUint32(o); return v, e },
		fixed(4, func(d []byte, p int, o binary.ByteOrder) interface{} { return get32(d, p, o) })},
	{"ReadInt32", "C03", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadInt32(o); return v, e },
		fixed(4, func(d []byte, p int, o binary.ByteOrder) interface{} { return int32(get32(d, p, o)) })},
	{"ReadUint64", "C03", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadUint64(o); return v, e },
		fixed(8, func(d []byte, p int, o binary.ByteOrder) interface{} { return get64(d, p, o) })},
	{"ReadInt64", "C03", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadInt64(o); return v, e },
		fixed(8, func(d []byte, p int, o binary.ByteOrder) interface{} { return int64(get64(d, p, o)) })},
	{"Int64.Unmarshal", "C03", false, false, through(func() interface{} { return new(Int64) }, func(p interface{}) interface{} { return int64(*p.(*Int64)) }),
		fixed(8, func(d []byte, p int, o binary.ByteOrder) interface{} { return int64(get64(d, p, binary.LittleEndian)) })},
	{"Uint64.Unmarshal", "C03", false, false, through(func() interface{} { return new(Uint64) }, func(p interface{}) interface{} { return uint64(*p.(*Uint64)) }),
		fixed(8, func(d []byte, p int, o binary.ByteOrder) interface{} { return get64(d, p, binary.LittleEndian) })},

	{"ReadUint128", "C06", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadUint128(o)
		return u128{v.Hi, v.Lo}, e
	},
		fixed(16, func(d []byte, p int, o binary.ByteOrder) interface{} { h, l := get128(d, p, o); return u128{h, l} })},
	{"ReadInt128", "C06", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadInt128(o)
		return u128{v.Hi, v.Lo}, e
	},
		fixed(16, func(d []byte, p int, o binary.ByteOrder) interface{} { h, l := get128(d, p, o); return u128{h, l} })},
	{"ReadFloat128", "C06", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadFloat128(o)
		return u128{v.Hi, v.Lo}, e
	},
		fixed(16, func(d []byte, p int, o binary.ByteOrder) interface{} { h, l := get128(d, p, o); return u128{h, l} })},
	{"Uint128.Unmarshal", "C06", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v := Uint128{Endianness: o}
		e := v.UnmarshalWithDecoder(d)
		return u128{v.Hi, v.Lo}, e
	}, fixed(16, func(d []byte, p int, o binary.ByteOrder) interface{} { h, l := get128(d, p, o); return u128{h, l} })},
	{"Int128.Unmarshal", "C06", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v := Int128{Endianness: o}
		e := v.UnmarshalWithDecoder(d)
		return u128{v.Hi, v.Lo}, e
	}, fixed(16, func(d []byte, p int, o binary.ByteOrder) interface{} { h, l := get128(d, p, o); return u128{h, l} })},
	{"Float128.Unmarshal", "C06", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v := Float128{Endianness: o}
		e := v.UnmarshalWithDecoder(d)
		return u128{v.Hi, v.Lo}, e
	}, fixed(16, func(d []byte, p int, o binary.ByteOrder) interface{} { h, l := get128(d, p, o); return u128{h, l} })},

	{"ReadUvarint64", "C04", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadUvarint64()
		return v, e
	},
		varspec(false, func(u uint64) (interface{}, bool) { return u, true })},
	{"ReadVarint64", "C04", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadVarint64()
		return v, e
	},
		varspec(true, func(u uint64) (interface{}, bool) { return unzigzag(u), true })},
	{"ReadUvarint32", "C04", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadUvarint32()
		return v, e
	},
		varspec(false, func(u uint64) (interface{}, bool) { return uint32(u), uint64(uint32(u)) == u })},
	{"ReadVarint32", "C04", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadVarint32()
		return v, e
	},
		varspec(true, func(u uint64) (interface{}, bool) { z := unzigzag(u); return int32(z), int64(int32(z)) == z })},
	{"ReadUvarint16", "C04", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadUvarint16()
		return v, e
	},
		varspec(false, func(u uint64) (interface{}, bool) { return uint16(u), uint64(uint16(u)) == u })},
	{"ReadVarint16", "C04", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadVarint16()
		return v, e
	},
		varspec(true, func(u uint64) (interface{}, bool) { z := unzigzag(u); return int16(z), int64(int16(z)) == z })},
	{"Varint16.Unmarshal", "C04", false, false, through(func() interface{} { return new(Varint16) }, func(p interface{}) interface{} { return int16(*p.(*Varint16)) }),
		varspec(true, func(u uint64) (interface{}, bool) { z := unzigzag(u); return int16(z), int64(int16(z)) == z })},
	{"Varint32.Unmarshal", "C04", false, false, through(func() interface{} { return new(Varint32) }, func(p interface{}) interface{} { return int32(*p.(*Varint32)) }),
		varspec(true, func(u uint64) (interface{}, bool) { z := unzigzag(u); return int32(z), int64(int32(z)) == z })},
	{"Varuint16.Unmarshal", "C04", false, false, through(func() interface{} { return new(Varuint16) }, func(p interface{}) interface{} { return uint16(*p.(*Varuint16)) }),
		varspec(false, func(u uint64) (interface{}, bool) { return uint16(u), uint64(uint16(u)) == u })},
	{"Varuint32.Unmarshal", "C04", false, false, through(func() interface{} { return new(Varuint32) }, func(p interface{}) interface{} { return uint32(*p.(*Varuint32)) }),
		varspec(false, func(u uint64) (interface{}, bool) { return uint32(u), uint64(uint32(u)) == u })},

	{"ReadCompactU16", "C05", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadCompactU16()
		return v, e
	}, compactSpec},
	{"ReadCompactU16Length", "C05", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadCompactU16Length()
		return v, e
	}, compactSpec},

	{"ReadOption", "C08", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadOption(); return v, e },
		fixed(1, func(d []byte, p int, o binary.ByteOrder) interface{} { return d[p] != 0 })},
	{"ReadCOption", "C08", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadCOption(); return v, e },
		func(data []byte, pos int, enc Encoding, o binary.ByteOrder, _ int) res {
			if len(data)-pos < 4 {
				return res{}
			}
			v := get32(data, pos, binary.LittleEndian)
			if v > 1 {
				return res{failAt: []int{4}}
			}
			return res{ok: true, size: 4, val: v == 1}
		}},

	{"ReadFloat32", "C09", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadFloat32(o)
		return math.Float32bits(v), e
	},
		func(data []byte, pos int, enc Encoding, o binary.ByteOrder, _ int) res {
			if len(data)-pos < 4 {
				return res{}
			}
			b := get32(data, pos, o)
			if enc == EncodingBorsh && b&0x7fffffff > 0x7f800000 {
				return res{failAt: []int{4}}
			}
			return res{ok: true, size: 4, val: b}
		}},
	{"ReadFloat64", "C09", true, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadFloat64(o)
		return math.Float64bits(v), e
	}, f64Spec},
	{"JSONFloat64.Unmarshal", "C09", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		var v JSONFloat64
		e := d.Decode(&v)
		return math.Float64bits(float64(v)), e
	}, f64Spec},

	{"ReadLength", "C07", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadLength(); return v, e },
		func(data []byte, pos int, enc Encoding, o binary.ByteOrder, _ int) res {
			v, n := readLen(enc, data, pos)
			if n > 0 {
				return res{ok: true, size: n, val: v}
			}
			r := res{}
			if raw := rawLen(enc, data, pos); raw > 0 {
				r.failAt = []int{raw}
			}
			return r
		}},
	{"ReadByteSlice", "C07", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadByteSlice()
		return cp(v), e
	}, bytesSpec(func(b []byte) interface{} { return cp(b) })},
	{"HexBytes.Unmarshal", "C07", false, false, through(func() interface{} { return new(HexBytes) }, func(p interface{}) interface{} { return cp(*p.(*HexBytes)) }),
		bytesSpec(func(b []byte) interface{} { return cp(b) })},
	{"ReadString", "C07", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadString(); return v, e },
		bytesSpec(func(b []byte) interface{} { return string(b) })},
	{"SafeReadUTF8String", "C07", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.SafeReadUTF8String()
		return v, e
	},
		bytesSpec(func(b []byte) interface{} { return utf8Safe(b) })},
	{"SafeString.Unmarshal", "C07", false, false, through(func() interface{} { return new(SafeString) }, func(p interface{}) interface{} { return string(*p.(*SafeString)) }),
		bytesSpec(func(b []byte) interface{} { return utf8Safe(b) })},
	{"ReadRustString", "C07", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadRustString()
		return v, e
	},
		func(data []byte, pos int, enc Encoding, o binary.ByteOrder, _ int) res {
			r := len(data) - pos
			if r < 8 {
				return res{}
			}
			n := get64(data, pos, binary.LittleEndian)
			if n <= math.MaxInt32 && int(n) <= r-8 {
				return res{ok: true, size: 8 + int(n), val: string(data[pos+8 : pos+8+int(n)])}
			}
			return res{failAt: []int{8}}
		}},
	{"ReadNBytes", "C07", false, true, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadNBytes(n)
		return cp(v), e
	}, nSpec(false, true)},
	{"ReadBytes", "C07", false, true, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadBytes(n)
		return cp(v), e
	}, nSpec(false, true)},
	{"Peek", "C07", false, true, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.Peek(n); return cp(v), e }, nSpec(true, false)},
	{"Read", "C07", false, true, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		if n < 0 || n > 1<<16 {
			n = 1 << 16
		}
		b := make([]byte, n)
		k, e := d.Read(b)
		if e == nil && k != n {
			return nil, fmt.Errorf("reported %d of %d bytes", k, n)
		}
		return b, e
	}, func(data []byte, pos int, enc Encoding, o binary.ByteOrder, n int) res {
		if n < 0 || n > 1<<16 {
			n = 1 << 16
		}
		return nSpec(false, false)(data, pos, enc, o, n)
	}},
	{"Discard", "", false, true, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { return nil, d.Discard(n) }, noVal(nSpec(false, true))},
	{"SkipBytes", "", false, true, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { return nil, d.SkipBytes(uint(n)) }, noVal(nSpec(false, false))},
	{"ReadTypeID", "C18", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) { v, e := d.ReadTypeID(); return v, e },
		fixed(8, func(d []byte, p int, o binary.ByteOrder) interface{} { return tidOf(d[p : p+8]) })},
	{"ReadDiscriminator", "C18", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.ReadDiscriminator()
		return v, e
	},
		fixed(8, func(d []byte, p int, o binary.ByteOrder) interface{} { return tidOf(d[p : p+8]) })},
	{"PeekDiscriminator", "C18", false, false, func(d *Decoder, o binary.ByteOrder, n int) (interface{}, error) {
		v, e := d.PeekDiscriminator()
		return v, e
	},
		func(data []byte, pos int, enc Encoding, o binary.ByteOrder, _ int) res {
			if len(data)-pos < 8 {
				return res{}
			}
			return res{ok: true, size: 0, val: tidOf(data[pos : pos+8])}
		}},
}

func cp(b []byte) []byte { return append([]byte{}, b...) }
func noVal(f func([]byte, int, Encoding, binary.ByteOrder, int) res) func([]byte, int, Encoding, binary.ByteOrder, int) res {
	return func(data []byte, pos int, enc Encoding, o binary.ByteOrder, n int) res {
		r := f(data, pos, enc, o, n)
		r.val = nil
		return r
	}
}
func compactSpec(data []byte, pos int, enc Encoding, o binary.ByteOrder, _ int) res {
	v, n := readCompact(data[pos:])
	return res{ok: n > 0, size: n, val: v}
}
func f64Spec(data []byte, pos int, enc Encoding, o binary.ByteOrder, _ int) res {
	if len(data)-pos < 8 {
		return res{}
	}
	b := get64(data, pos, o)
	if enc == EncodingBorsh && b&0x7fffffffffffffff > 0x7ff0000000000000 {
		return res{failAt: []int{8}}
	}
	return res{ok: true, size: 8, val: b}
}

// checkRead runs one read at one cursor; what selects the clauses: "safe", "adv", "val".
func checkRead(c *Ctx, op *rop, data []byte, pos int, enc Encoding, o binary.ByteOrder, n int, what string) {
	if strings.HasSuffix(op.name, ".Unmarshal") && op.name == "JSONFloat64.Unmarshal" {
		o = binary.LittleEndian
	}
	orig := cp(data)
	d := NewDecoderWithEncoding(data, enc)
	var v interface{}
	var err error
	c.NoPanic(op.name, func() {
		if e := setPos(d, pos, len(data)); e != nil {
			c.Fail("SetPosition(%d) on %d bytes: %v", pos, len(data), e)
		}
		v, err = op.do(d, o, n)
	})
	p := d.Position()
	ctx := func() string {
		return fmt.Sprintf("%s(order=%v, n=%d) at %d of %d bytes [%s] in %v: value=%v err=%v, position %d", op.name, o, n, pos, len(data), hx(data), enc, v, err, p)
	}
	if strings.Contains(what, "safe") {
		c.Check(p <= uint(len(data)), "cursor outside the input: %s", ctx)
		c.Check(int(p)+d.Remaining() == len(data) && d.Len() == len(data) && d.HasRemaining() == (int(p) < len(data)), "position+remaining=%d+%d, len %d: %s", p, d.Remaining(), d.Len(), ctx)
		c.Check(bytes.Equal(orig, data), "input changed to [%s]: %s", hx(data), ctx)
	}
	s := op.spec(data, pos, enc, o, n)
	if strings.Contains(what, "adv") {
		if err == nil {
			if s.ok {
				c.Check(int(p) == pos+s.size, "advanced by %d, item has %d bytes: %s", int(p)-pos, s.size, ctx)
			}
		} else {
			okp := int(p) == pos
			for _, f := range s.failAt {
				okp = okp || int(p) == pos+f
			}
			c.Check(okp, "failed read moved the cursor by %d: %s", int(p)-pos, ctx)
		}
	}
	if strings.Contains(what, "val") || strings.Contains(what, "adv") {
		if !s.lax {
			c.Check((err == nil) == s.ok, "succeeds=%v, want %v: %s", err == nil, s.ok, ctx)
		}
	}
	if strings.Contains(what, "val") && err == nil && s.ok && !s.lax && s.val != nil {
		c.Check(reflect.DeepEqual(v, s.val), "got %v, want %v: %s", v, s.val, ctx)
	}
}
func setPos(d *Decoder, pos, n int) error {
	if pos == 0 {
		return nil
	}
	if pos == n {
		return d.SkipBytes(uint(n))
	}
	return d.SetPosition(uint(pos))
}

// readCorpus enumerates buffers and positions: hints first, then edges.
func (c *Ctx) edgeBufs() [][]byte {
	var out [][]byte
	for _, b := range c.HintBufs {
		out = append(out, b)
	}
	out = append(out, nil, []byte{})
	for n := 1; n <= 20; n++ {
		z := make([]byte, n)
		f := bytes.Repeat([]byte{0xff}, n)
		e := bytes.Repeat([]byte{0x80}, n)
		q := make([]byte, n)
		for i := range q {
			q[i] = byte(i + 1)
		}
		s := make([]byte, n)
		for i := range s {
			s[i] = byte(0xf1 + i)
		}
		e1 := append(bytes.Repeat([]byte{0xff}, n-1), 1)
		e2 := append(bytes.Repeat([]byte{0x80}, n-1), 1)
		e3 := append(bytes.Repeat([]byte{0xff}, n-1), 2)
		e4 := append(bytes.Repeat([]byte{0x80}, n-1), 0x7f)
		o := make([]byte, n)
		o[0] = 1
		l := make([]byte, n)
		l[0] = byte(n - 1)
		l4 := make([]byte, n)
		l4[0] = byte(max(0, n-4))
		l8 := make([]byte, n)
		l8[0] = byte(max(0, n-8))
		m1 := make([]byte, n)
		m1[n-1] = 0x80
		m2 := make([]byte, n)
		m2[n-1] = 0x7f
		out = append(out, z, f, e, q, s, e1, e2, e3, e4, o, l, l4, l8, m1, m2)
	}
	return out
}

func readOnce(groups string, what string) Section {
	return Section{Name: "reads/edges", Once: true, Run: func(c *Ctx) {
		for i := range rops {
			op := &rops[i]
			if groups != "" && !strings.Contains(op.groups, groups) {
				continue
			}
			os := orders
			if !op.order {
				os = orders[:1]
			}
			ints := []int{0}
			if op.arg {
				ints = []int{0, 1, 2, 7, 8, 19, 20, 21, -1, math.MinInt64, math.MaxInt64, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt64 - 5}
				for _, h := range c.HintInts {
					ints = append(ints, int(h))
				}
			}
			for _, data := range c.edgeBufs() {
				var ps []int
				if len(data) <= 6 {
					for p := 0; p <= len(data); p++ {
						ps = append(ps, p)
					}
				} else {
					ps = []int{0, 1, len(data) - 8, len(data) - 4, len(data) - 3, len(data) - 2, len(data) - 1, len(data)}
				}
				for _, h := range c.HintPos {
					if h >= 0 && h <= len(data) {
						ps = append(ps, h)
					}
				}
				for _, pos := range ps {
					if pos < 0 {
						continue
					}
					for _, o := range os {
						for _, enc := range encs {
							for _, n := range ints {
								c.Case(fmt.Sprintf("%s data=%s pos=%d enc=%v order=%v n=%d", op.name, hx(data), pos, enc, o, n))
								checkRead(c, op, cp(data), pos, enc, o, n, what)
							}
						}
					}
				}
			}
			// values of interest placed in the buffer, in both orders and as varints
			for _, v := range c.Ints() {
				var b8l, b8b [16]byte
				binary.LittleEndian.PutUint64(b8l[:], v)
				binary.LittleEndian.PutUint64(b8l[8:], ^v)
				binary.BigEndian.PutUint64(b8b[:], v)
				binary.BigEndian.PutUint64(b8b[8:], v>>1)
				var b4 [8]byte
				binary.BigEndian.PutUint32(b4[:], uint32(v))
				binary.BigEndian.PutUint16(b4[4:], uint16(v))
				bufs := [][]byte{b8l[:], b8b[:], b4[:], b4[4:6], specUvarint(v), specVarint(int64(v)), specCompact(int(v & 0xffff))}
				for _, data := range bufs {
					for _, o := range os {
						for _, enc := range encs {
							c.Case(fmt.Sprintf("%s data=%s enc=%v order=%v", op.name, hx(data), enc, o))
							checkRead(c, op, cp(data), 0, enc, o, int(v), what)
						}
					}
				}
			}
		}
	}}
}
func readRandom(groups string, what string) Section {
	return Section{Name: "reads/random", Run: func(c *Ctx) {
		var op *rop
		for op == nil || groups != "" && !strings.Contains(op.groups, groups) {
			op = &rops[c.R.Intn(len(rops))]
		}
		data := c.readBuf()
		pos := c.R.Intn(len(data) + 1)
		if c.R.Intn(3) == 0 {
			pos = 0
		}
		if len(c.HintPos) > 0 && c.R.Intn(4) == 0 {
			if h := c.HintPos[c.R.Intn(len(c.HintPos))]; h >= 0 && h <= len(data) {
				pos = h
			}
		}
		o, enc := orders[c.R.Intn(2)], encs[c.R.Intn(3)]
		n := int(c.U64())
		if c.R.Intn(2) == 0 {
			n = c.R.Intn(len(data) + 2)
		}
		if !op.order {
			o = binary.LittleEndian
		}
		c.Case(fmt.Sprintf("%s data=%s pos=%d enc=%v order=%v n=%d", op.name, hx(data), pos, enc, o, n))
		checkRead(c, op, data, pos, enc, o, n, what)
	}}
}

// readBuf: random bytes, often with a plausible prefix.
func (c *Ctx) readBuf() []byte {
	switch c.R.Intn(6) {
	case 0:
		return c.Buf()
	case 1:
		return append(specUvarint(c.U64()), c.Bytes(c.Len())...)
	case 2:
		b := c.Bytes(c.Len())
		return append(append([]byte{}, specLen(encs[c.R.Intn(3)], len(b)+c.R.Intn(3)-1&0xffff)...), b...)
	case 3:
		b := c.Bytes(c.Len())
		return append(append([]byte{}, spec64(uint64(len(b)+c.R.Intn(3)-1), binary.LittleEndian)...), b...)
	case 4:
		return append(spec64(c.U64(), orders[c.R.Intn(2)]), c.Bytes(c.Len())...)
	}
	return c.Bytes(c.R.Intn(24))
}

// ---- histories of reads on one decoder
func historySection(what string) Section {
	return Section{Name: "histories", Run: func(c *Ctx) {
		data := c.Bytes(c.R.Intn(60))
		orig := cp(data)
		enc := encs[c.R.Intn(3)]
		var log []string
		n := 3 + c.R.Intn(20)
		d := NewDecoderWithEncoding(data, enc)
		c.Case(fmt.Sprintf("history of %d calls over %s in %v (seed state %d)", n, hx(data), enc, c.R.Int63()))
		pos := 0
		for i := 0; i < n; i++ {
			desc := ""
			c.NoPanic("call sequence", func() {
				switch k := c.R.Intn(12); {
				case k == 0:
					idx := uint(c.U64())
					if c.R.Intn(2) == 0 {
						idx = uint(c.R.Intn(len(data) + 2))
					}
					err := d.SetPosition(idx)
					desc = fmt.Sprintf("SetPosition(%d)=%v", idx, err)
					log = append(log, desc)
					if what != "adv" {
						pos = int(d.Position())
					} else if err == nil {
						c.Check(d.Position() == idx, "after %s position is %d", desc, d.Position())
						pos = int(idx)
					} else {
						c.Check(d.Position() == uint(pos), "failed seek moved the cursor: %v", log)
					}
					c.Check(what != "adv" || !(idx < uint(len(data)) && err != nil) && !(idx > uint(len(data)) && err == nil), "seek outcome: %v", log)
				case k == 1 && c.R.Intn(4) == 0:
					data = c.Bytes(c.R.Intn(40))
					orig = cp(data)
					d.Reset(data)
					desc = "Reset"
					log = append(log, "Reset("+hx(data)+")")
					pos = 0
					c.Check(d.Position() == 0 && d.Len() == len(data), "after Reset: %d %d", d.Position(), d.Len())
				default:
					op := &rops[c.R.Intn(len(rops))]
					o := orders[c.R.Intn(2)]
					if !op.order {
						o = binary.LittleEndian
					}
					arg := int(c.U64())
					if c.R.Intn(3) > 0 {
						arg = c.R.Intn(12)
					}
					s := op.spec(data, pos, enc, o, arg)
					if strings.HasSuffix(op.name, "128.Unmarshal") {
						return // tagged orders need a decoder without field options
					}
					v, err := op.do(d, o, arg)
					_ = v
					desc = fmt.Sprintf("%s(%v,%d) err=%v", op.name, o, arg, err)
					log = append(log, desc)
					np := int(d.Position())
					if what != "adv" {
					} else if err == nil {
						c.Check(s.lax || s.ok && np == pos+s.size, "position %d after %v over %s", np, log, hx(data))
					} else {
						ok := np == pos
						for _, f := range s.failAt {
							ok = ok || np == pos+f
						}
						c.Check(ok && (s.lax || !s.ok), "position %d after failed %v over %s", np, log, hx(data))
					}
					pos = np
				}
			})
			p := int(d.Position())
			c.Check(p >= 0 && p <= len(data) && p+d.Remaining() == len(data), "cursor %d remaining %d of %d after %v", p, d.Remaining(), len(data), log)
			c.Check(bytes.Equal(orig, data), "input changed after %v", log)
		}
	}}
}

// ---- writes

type recorder struct {
	out    []byte
	calls  int
	failAt int // 1-based call that fails; 0 never
	short  bool
}

var errWriter = errors.New("writer failed")

func (w *recorder) Write(p []byte) (int, error) {
	w.calls++
	if w.failAt > 0 && w.calls >= w.failAt {
		w.out = append(w.out, p...)
		return 0, errWriter
	}
	w.out = append(w.out, p...)
	return len(p), nil
}

type wcase struct {
	desc string
	do   func(e *Encoder) error
	spec func(enc Encoding) (ok, lax bool, b []byte)
}
type wop struct {
	name   string
	groups string
	mk     func(c *Ctx, v uint64, o binary.ByteOrder) wcase
}

func always(f func(enc Encoding) Seq) func(Encoding) (bool, bool, []byte) {
	return func(enc Encoding) (bool, bool, []byte) { return true, false, f(enc) }
}
func simpleW(name, groups string, do func(e *Encoder, v uint64, o binary.ByteOrder) error, spec func(v uint64, o binary.ByteOrder) Seq) wop {
	return wop{name, groups, func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		return wcase{fmt.Sprintf("%s(%#x, %v)", name, v, o), func(e *Encoder) error { return do(e, v, o) }, always(func(Encoding) Seq { return spec(v, o) })}
	}}
}
func lenW(enc Encoding, b []byte) (bool, bool, []byte) {
	if !lenOK(enc, len(b)) {
		return false, enc != EncodingCompactU16, nil
	}
	return true, false, cat(specLen(enc, len(b)), b)
}
func content(c *Ctx, v uint64) []byte {
	n := int(v)
	if n < 0 || n > 70000 {
		n = c.Len()
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(uint64(i)*7 + v)
	}
	return b
}

var wops = []wop{
	simpleW("WriteByte", "C03", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteByte(byte(v)) }, func(v uint64, o binary.ByteOrder) Seq { return seqB(byte(v)) }),
	simpleW("WriteUint8", "C03", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteUint8(byte(v)) }, func(v uint64, o binary.ByteOrder) Seq { return seqB(byte(v)) }),
	simpleW("WriteInt8", "C03", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteInt8(int8(v)) }, func(v uint64, o binary.ByteOrder) Seq { return seqB(byte(v)) }),
	simpleW("WriteBool", "C03", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteBool(v&1 == 1) }, func(v uint64, o binary.ByteOrder) Seq { return specBool(v&1 == 1) }),
	simpleW("Bool.Marshal", "C03", func(e *Encoder, v uint64, o binary.ByteOrder) error { return Bool(v&1 == 1).MarshalWithEncoder(e) }, func(v uint64, o binary.ByteOrder) Seq { return specBool(v&1 == 1) }),
	simpleW("WriteUint16", "C03", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteUint16(uint16(v), o) }, func(v uint64, o binary.ByteOrder) Seq { return spec16(uint16(v), o) }),
	simpleW("WriteInt16", "C03", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteInt16(int16(v), o) }, func(v uint64, o binary.ByteOrder) Seq { return spec16(uint16(v), o) }),
	simpleW("WriteUint32", "C03", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteUint32(uint32(v), o) }, func(v uint64, o binary.ByteOrder) Seq { return spec32(uint32(v), o) }),
	simpleW("WriteInt32", "C03", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteInt32(int32(v), o) }, func(v uint64, o binary.ByteOrder) Seq { return spec32(uint32(v), o) }),
	simpleW("WriteUint64", "C03", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteUint64(v, o) }, func(v uint64, o binary.ByteOrder) Seq { return spec64(v, o) }),
	simpleW("WriteInt64", "C03", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteInt64(int64(v), o) }, func(v uint64, o binary.ByteOrder) Seq { return spec64(v, o) }),
	simpleW("Encode(Int64)", "C03", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.Encode(Int64(v)) }, func(v uint64, o binary.ByteOrder) Seq { return spec64(v, binary.LittleEndian) }),
	simpleW("Encode(Uint64)", "C03", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.Encode(Uint64(v)) }, func(v uint64, o binary.ByteOrder) Seq { return spec64(v, binary.LittleEndian) }),
	w128("WriteUint128", func(e *Encoder, h, l uint64, o binary.ByteOrder) error {
		return e.WriteUint128(Uint128{Hi: h, Lo: l}, o)
	}),
	w128("WriteInt128", func(e *Encoder, h, l uint64, o binary.ByteOrder) error { return e.WriteInt128(Int128{Hi: h, Lo: l}, o) }),
	w128("Uint128.Marshal", func(e *Encoder, h, l uint64, o binary.ByteOrder) error {
		return Uint128{Hi: h, Lo: l, Endianness: o}.MarshalWithEncoder(e)
	}),
	w128("Int128.Marshal", func(e *Encoder, h, l uint64, o binary.ByteOrder) error {
		return Int128{Hi: h, Lo: l, Endianness: o}.MarshalWithEncoder(e)
	}),
	w128("Float128.Marshal", func(e *Encoder, h, l uint64, o binary.ByteOrder) error {
		return Float128{Hi: h, Lo: l, Endianness: o}.MarshalWithEncoder(e)
	}),
	simpleW("WriteUVarInt", "C04", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteUVarInt(int(v)) }, func(v uint64, o binary.ByteOrder) Seq { return specUvarint(v) }),
	simpleW("WriteVarInt", "C04", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteVarInt(int(v)) }, func(v uint64, o binary.ByteOrder) Seq { return specVarint(int64(v)) }),
	simpleW("Varint16.Marshal", "C04", func(e *Encoder, v uint64, o binary.ByteOrder) error { return Varint16(v).MarshalWithEncoder(e) }, func(v uint64, o binary.ByteOrder) Seq { return specVarint(int64(int16(v))) }),
	simpleW("Varint32.Marshal", "C04", func(e *Encoder, v uint64, o binary.ByteOrder) error { return Varint32(v).MarshalWithEncoder(e) }, func(v uint64, o binary.ByteOrder) Seq { return specVarint(int64(int32(v))) }),
	simpleW("Varuint16.Marshal", "C04", func(e *Encoder, v uint64, o binary.ByteOrder) error { return Varuint16(v).MarshalWithEncoder(e) }, func(v uint64, o binary.ByteOrder) Seq { return specUvarint(uint64(uint16(v))) }),
	simpleW("Varuint32.Marshal", "C04", func(e *Encoder, v uint64, o binary.ByteOrder) error { return Varuint32(v).MarshalWithEncoder(e) }, func(v uint64, o binary.ByteOrder) Seq { return specUvarint(uint64(uint32(v))) }),
	{"WriteCompactU16", "C05", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		return wcase{fmt.Sprintf("WriteCompactU16(%d)", int(v)), func(e *Encoder) error { return e.WriteCompactU16(int(v)) }, func(Encoding) (bool, bool, []byte) { return compactOK(int(v)), false, specCompact(int(v)) }}
	}},
	{"WriteCompactU16Length", "C05", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		return wcase{fmt.Sprintf("WriteCompactU16Length(%d)", int(v)), func(e *Encoder) error { return e.WriteCompactU16Length(int(v)) }, func(Encoding) (bool, bool, []byte) { return compactOK(int(v)), false, specCompact(int(v)) }}
	}},
	{"WriteLength", "C05 C07", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		return wcase{fmt.Sprintf("WriteLength(%d)", int(v)), func(e *Encoder) error { return e.WriteLength(int(v)) }, func(enc Encoding) (bool, bool, []byte) {
			if !lenOK(enc, int(v)) {
				return false, enc != EncodingCompactU16, nil
			}
			return true, false, specLen(enc, int(v))
		}}
	}},
	{"WriteBytes(prefixed)", "C07", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		b := content(c, v)
		return wcase{fmt.Sprintf("WriteBytes(%s, true)", hx(b)), func(e *Encoder) error { return e.WriteBytes(b, true) }, func(enc Encoding) (bool, bool, []byte) { return lenW(enc, b) }}
	}},
	{"WriteBytes(bare)", "C07", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		b := content(c, v)
		return wcase{fmt.Sprintf("WriteBytes(%s, false)", hx(b)), func(e *Encoder) error { return e.WriteBytes(b, false) }, always(func(Encoding) Seq { return b })}
	}},
	{"Write", "C07", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		b := content(c, v)
		return wcase{fmt.Sprintf("Write(%s)", hx(b)), func(e *Encoder) error {
			n, err := e.Write(b)
			if err == nil && n != len(b) {
				return fmt.Errorf("Write reported %d of %d bytes", n, len(b))
			}
			return err
		}, always(func(Encoding) Seq { return b })}
	}},
	{"WriteString", "C07", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		b := content(c, v)
		return wcase{fmt.Sprintf("WriteString(%s)", hx(b)), func(e *Encoder) error { return e.WriteString(string(b)) }, func(enc Encoding) (bool, bool, []byte) { return lenW(enc, b) }}
	}},
	{"SafeString.Marshal", "C07", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		b := content(c, v)
		return wcase{fmt.Sprintf("SafeString(%s).Marshal", hx(b)), func(e *Encoder) error { return SafeString(b).MarshalWithEncoder(e) }, func(enc Encoding) (bool, bool, []byte) { return lenW(enc, b) }}
	}},
	{"HexBytes.Marshal", "C07", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		b := content(c, v)
		return wcase{fmt.Sprintf("HexBytes(%s).Marshal", hx(b)), func(e *Encoder) error { return HexBytes(b).MarshalWithEncoder(e) }, func(enc Encoding) (bool, bool, []byte) { return lenW(enc, b) }}
	}},
	{"WriteRustString", "C07", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		b := content(c, v)
		return wcase{fmt.Sprintf("WriteRustString(%s)", hx(b)), func(e *Encoder) error { return e.WriteRustString(string(b)) }, always(func(Encoding) Seq { return cat(spec64(uint64(len(b)), binary.LittleEndian), b) })}
	}},
	simpleW("WriteOption", "C08", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteOption(v&1 == 1) }, func(v uint64, o binary.ByteOrder) Seq { return specBool(v&1 == 1) }),
	simpleW("WriteCOption", "C08", func(e *Encoder, v uint64, o binary.ByteOrder) error { return e.WriteCOption(v&1 == 1) }, func(v uint64, o binary.ByteOrder) Seq { return cat(specBool(v&1 == 1), seqB(0, 0, 0)) }),
	{"WriteFloat32", "C09", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		f := math.Float32frombits(uint32(v))
		return wcase{fmt.Sprintf("WriteFloat32(bits %#x, %v)", uint32(v), o), func(e *Encoder) error { return e.WriteFloat32(f, o) }, func(enc Encoding) (bool, bool, []byte) {
			return !(enc == EncodingBorsh && uint32(v)&0x7fffffff > 0x7f800000), false, spec32(uint32(v), o)
		}}
	}},
	{"WriteFloat64", "C09", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		f := math.Float64frombits(v)
		return wcase{fmt.Sprintf("WriteFloat64(bits %#x, %v)", v, o), func(e *Encoder) error { return e.WriteFloat64(f, o) }, func(enc Encoding) (bool, bool, []byte) {
			return !(enc == EncodingBorsh && v&0x7fffffffffffffff > 0x7ff0000000000000), false, spec64(v, o)
		}}
	}},
	{"Encode(JSONFloat64)", "C09", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		f := math.Float64frombits(v)
		return wcase{fmt.Sprintf("Encode(JSONFloat64 bits %#x)", v), func(e *Encoder) error { return e.Encode(JSONFloat64(f)) }, func(enc Encoding) (bool, bool, []byte) {
			return !(enc == EncodingBorsh && v&0x7fffffffffffffff > 0x7ff0000000000000), false, spec64(v, binary.LittleEndian)
		}}
	}},
}

func w128(name string, do func(e *Encoder, h, l uint64, o binary.ByteOrder) error) wop {
	return wop{name, "C06", func(c *Ctx, v uint64, o binary.ByteOrder) wcase {
		lo := c.U64()
		if v&1 == 1 {
			lo, v = v, lo
		}
		return wcase{fmt.Sprintf("%s(hi=%#x lo=%#x, %v)", name, v, lo, o), func(e *Encoder) error { return do(e, v, lo, o) }, always(func(Encoding) Seq { return spec128(v, lo, o) })}
	}}
}

// checkWrite: what selects "out" (bytes) and "acct" (counting, errors).
func checkWrite(c *Ctx, w wcase, enc Encoding, failAt int, pre []byte, what string) {
	rec := &recorder{}
	e := NewEncoderWithEncoding(rec, enc)
	if pre != nil {
		if err := e.WriteBytes(pre, false); err != nil {
			c.Fail("WriteBytes: %v", err)
		}
	}
	if failAt > 0 {
		rec.failAt = rec.calls + failAt
	}
	var err error
	c.NoPanic(w.desc, func() { err = w.do(e) })
	ok, lax, want := w.spec(enc)
	got := rec.out[len(pre):]
	ctx := func() string {
		return fmt.Sprintf("%s in %v after %d bytes (writer failing at call %d): err=%v wrote [%s] Written=%d", w.desc, enc, len(pre), failAt, err, hx(got), e.Written())
	}
	if strings.Contains(what, "acct") {
		c.Check(e.Written() == len(rec.out), "Written() is %d, the writer saw %d bytes: %s", e.Written(), len(rec.out), ctx)
		if failAt > 0 && rec.calls >= rec.failAt {
			c.Check(err != nil, "writer error hidden: %s", ctx)
		}
	}
	if lax {
		return
	}
	if failAt > 0 && rec.calls >= rec.failAt {
		if ok {
			c.Check(len(got) <= len(want) && bytes.Equal(got, want[:len(got)]), "bytes handed over are not a prefix of [%s]: %s", hx(want), ctx)
		}
		return
	}
	c.Check((err == nil) == ok, "succeeds=%v, want %v: %s", err == nil, ok, ctx)
	if ok {
		c.Check(bytes.Equal(got, want), "want [%s]: %s", hx(want), ctx)
	} else {
		c.Check(len(got) == 0, "a refused item wrote bytes: %s", ctx)
	}
}
func writeOnce(groups, what string) Section {
	return Section{Name: "writes/edges", Once: true, Run: func(c *Ctx) {
		for i := range wops {
			op := &wops[i]
			if groups != "" && !strings.Contains(op.groups, groups) {
				continue
			}
			for _, v := range c.Ints() {
				for _, o := range orders {
					w := op.mk(c, v, o)
					for _, enc := range encs {
						c.Case(w.desc + " in " + enc.String())
						checkWrite(c, w, enc, 0, nil, what)
						if strings.Contains(what, "acct") {
							for k := 1; k <= 3; k++ {
								checkWrite(c, w, enc, k, []byte{9, 9}, what)
							}
						}
					}
				}
			}
			c.Case(op.name + " exhaustive 16-bit")
			if groups == "" {
				continue
			}
			for v := uint64(0); v < 1<<16; v++ {
				if strings.Contains(op.name, "Bytes") || strings.Contains(op.name, "String") || op.name == "Write" {
					if v > 700 && v%997 != 0 {
						continue
					}
				}
				w := op.mk(c, v, orders[v&1])
				checkWrite(c, w, encs[v%3], 0, nil, what)
				c.Count(1)
			}
		}
	}}
}
func writeRandom(groups, what string) Section {
	return Section{Name: "writes/random", Run: func(c *Ctx) {
		var op *wop
		for op == nil || groups != "" && !strings.Contains(op.groups, groups) {
			op = &wops[c.R.Intn(len(wops))]
		}
		w := op.mk(c, c.U64(), orders[c.R.Intn(2)])
		enc := encs[c.R.Intn(3)]
		fail := 0
		if strings.Contains(what, "acct") && c.R.Intn(2) == 0 {
			fail = 1 + c.R.Intn(3)
		}
		c.Case(w.desc + " in " + enc.String())
		checkWrite(c, w, enc, fail, c.Bytes(c.R.Intn(4)), what)
	}}
}

// ---- write then read back
func roundTrips(group string) Section {
	pairs := map[string][][2]string{
		"C03": {{"WriteByte", "ReadByte"}, {"WriteUint8", "ReadUint8"}, {"WriteInt8", "ReadInt8"}, {"WriteBool", "ReadBool"}, {"Bool.Marshal", "Bool.Unmarshal"}, {"WriteUint16", "ReadUint16"}, {"WriteInt16", "ReadInt16"}, {"WriteUint32", "ReadUint32"}, {"WriteInt32", "ReadInt32"}, {"WriteUint64", "ReadUint64"}, {"WriteInt64", "ReadInt64"}, {"Encode(Int64)", "Int64.Unmarshal"}, {"Encode(Uint64)", "Uint64.Unmarshal"}},
		"C04": {{"WriteUVarInt", "ReadUvarint64"}, {"WriteVarInt", "ReadVarint64"}, {"Varint16.Marshal", "Varint16.Unmarshal"}, {"Varint32.Marshal", "Varint32.Unmarshal"}, {"Varuint16.Marshal", "Varuint16.Unmarshal"}, {"Varuint32.Marshal", "Varuint32.Unmarshal"}, {"Varint16.Marshal", "ReadVarint16"}, {"Varint32.Marshal", "ReadVarint32"}, {"Varuint16.Marshal", "ReadUvarint16"}, {"Varuint32.Marshal", "ReadUvarint32"}},
		"C05": {{"WriteCompactU16", "ReadCompactU16"}, {"WriteCompactU16Length", "ReadCompactU16Length"}},
		"C06": {{"WriteUint128", "ReadUint128"}, {"WriteInt128", "ReadInt128"}, {"WriteUint128", "ReadFloat128"}, {"Uint128.Marshal", "Uint128.Unmarshal"}, {"Int128.Marshal", "Int128.Unmarshal"}, {"Float128.Marshal", "Float128.Unmarshal"}},
		"C07": {{"WriteLength", "ReadLength"}, {"WriteBytes(prefixed)", "ReadByteSlice"}, {"HexBytes.Marshal", "HexBytes.Unmarshal"}, {"WriteString", "ReadString"}, {"WriteRustString", "ReadRustString"}, {"SafeString.Marshal", "SafeString.Unmarshal"}},
		"C08": {{"WriteOption", "ReadOption"}, {"WriteCOption", "ReadCOption"}},
		"C09": {{"WriteFloat32", "ReadFloat32"}, {"WriteFloat64", "ReadFloat64"}, {"Encode(JSONFloat64)", "JSONFloat64.Unmarshal"}},
	}[group]
	return Section{Name: "round trips", Run: func(c *Ctx) {
		p := pairs[c.R.Intn(len(pairs))]
		var w *wop
		var r *rop
		for i := range wops {
			if wops[i].name == p[0] {
				w = &wops[i]
			}
		}
		for i := range rops {
			if rops[i].name == p[1] {
				r = &rops[i]
			}
		}
		o, enc := orders[c.R.Intn(2)], encs[c.R.Intn(3)]
		if strings.Contains(p[0], "Encode(") {
			o = binary.LittleEndian
		}
		wc := w.mk(c, c.U64(), o)
		ok, lax, want := wc.spec(enc)
		if !ok || lax {
			return
		}
		tail := c.Bytes(c.R.Intn(5))
		var buf bytes.Buffer
		c.Case(wc.desc + " then " + p[1] + " in " + enc.String())
		c.NoPanic(wc.desc, func() {
			if err := wc.do(NewEncoderWithEncoding(&buf, enc)); err != nil {
				c.Fail("%s in %v: %v", wc.desc, enc, err)
			}
		})
		data := append(cp(buf.Bytes()), tail...)
		c.Check(bytes.Equal(buf.Bytes(), want), "%s wrote [%s], want [%s]", wc.desc, hx(buf.Bytes()), hx(want))
		if p[1] == "ReadLength" {
			if v, n := readLen(enc, data, 0); n == 0 || v > math.MaxInt32 {
				return // the reader accepts lengths up to 2^31-1
			}
		}
		checkRead(c, r, data, 0, enc, o, 0, "safe,adv,val")
	}}
}

func init() {
	props["C01"] = []Section{readOnce("", "safe"), readRandom("", "safe"), historySection("safe")}
	props["C02"] = []Section{readOnce("", "adv"), readRandom("", "adv"), historySection("adv")}
	for _, g := range []string{"C03", "C04", "C05", "C06", "C07", "C08", "C09"} {
		props[g] = []Section{readOnce(g, "adv,val"), writeOnce(g, "out"), readRandom(g, "adv,val"), writeRandom(g, "out"), roundTrips(g)}
	}
	props["C05"] = append(props["C05"], Section{Name: "compact exhaustive", Once: true, Run: compactExhaustive})
	props["C06"] = append(props["C06"], Section{Name: "numeric views", Run: numericViews}, Section{Name: "numeric views/edges", Once: true, Run: func(c *Ctx) {
		ints := c.Ints()
		for _, h := range ints {
			for k := 0; k < 6; k++ {
				checkViews(c, h, ints[c.R.Intn(len(ints))])
				checkViews(c, ints[c.R.Intn(len(ints))], h)
			}
		}
	}})
	props["C09"] = append(props["C09"], Section{Name: "float32 sweep", Once: true, Run: func(c *Ctx) {
		w := func(n string) *wop {
			for i := range wops {
				if wops[i].name == n {
					return &wops[i]
				}
			}
			return nil
		}
		f32, f64 := w("WriteFloat32"), w("WriteFloat64")
		c.Case("sweep of float32 exponents/mantissas")
		for hi := uint64(0); hi < 1<<16; hi += 1 {
			for _, lo := range []uint64{0, 1, 0x8000, 0xffff} {
				checkWrite(c, f32.mk(c, hi<<16|lo, orders[hi&1]), encs[(hi+lo)%3], 0, nil, "out")
				checkWrite(c, f64.mk(c, hi<<48|lo<<32|lo, orders[hi&1]), encs[(hi+lo)%3], 0, nil, "out")
			}
			c.Count(8)
		}
	}})
}

func numericViews(c *Ctx) { checkViews(c, c.U64(), c.U64()) }
func checkViews(c *Ctx, hi, lo uint64) {
	for _, o := range []binary.ByteOrder{nil, binary.LittleEndian, binary.BigEndian} {
		u := Uint128{Hi: hi, Lo: lo, Endianness: o}
		c.Case(fmt.Sprintf("128-bit views hi=%#x lo=%#x order=%v", hi, lo, o))
		want := new(big.Int).SetUint64(hi)
		want.Lsh(want, 64).Add(want, new(big.Int).SetUint64(lo))
		c.NoPanic("128-bit views", func() {
			c.Check(u.BigInt().Cmp(want) == 0, "Uint128{Hi:%#x,Lo:%#x,%v}.BigInt()=%v, want %v", hi, lo, o, u.BigInt(), want)
			c.Check(u.DecimalString() == want.String() && u.String() == want.String(), "DecimalString %s, String %s, want %v (order %v)", u.DecimalString(), u.String(), want, o)
			be := spec128(hi, lo, binary.BigEndian)
			c.Check(bytes.Equal(u.Bytes(), be), "Bytes()=%s, want %s", hx(u.Bytes()), hx(be))
			c.Check(u.HexString() == fmt.Sprintf("0x%x", []byte(be)), "HexString()=%s", u.HexString())
			sw := new(big.Int).Set(want)
			if hi>>63 == 1 {
				sw.Sub(sw, new(big.Int).Lsh(big.NewInt(1), 128))
			}
			i := Int128(u)
			c.Check(i.BigInt().Cmp(sw) == 0, "Int128{Hi:%#x,Lo:%#x,%v}.BigInt()=%v, want %v", hi, lo, o, i.BigInt(), sw)
			c.Check(i.DecimalString() == sw.String(), "Int128 DecimalString %s, want %v", i.DecimalString(), sw)
		})
	}
}

func compactExhaustive(c *Ctx) {
	c.Case("every length -10..70000 and beyond through EncodeCompactU16Length")
	lens := []int{math.MinInt64, -1 << 32, -65536, math.MaxInt64, 1 << 32, 1<<32 + 5, 1 << 20, 1 << 21}
	for i := -10; i < 70000; i++ {
		lens = append(lens, i)
	}
	for _, v := range c.HintInts {
		lens = append(lens, int(v))
	}
	for _, n := range lens {
		buf := []byte{0xaa}
		var err error
		c.NoPanic("EncodeCompactU16Length", func() { err = EncodeCompactU16Length(&buf, n) })
		c.Check((err == nil) == compactOK(n), "EncodeCompactU16Length(%d): err=%v", n, err)
		want := []byte{0xaa}
		if err == nil {
			want = append(want, specCompact(n)...)
		}
		c.Check(bytes.Equal(buf, want), "EncodeCompactU16Length(%d) gives %s, want %s", n, hx(buf), hx(want))
	}
	c.Count(len(lens))
	c.Case("every sequence of at most three bytes (plus a tail) through the three decoders")
	try := func(b []byte) {
		v, n := readCompact(b)
		gv, gn, err := DecodeCompactU16(b)
		if (err == nil) != (n > 0) || err == nil && (gv != v || gn != n) {
			c.Fail("DecodeCompactU16(%s)=%d,%d,%v want %d,%d", hx(b), gv, gn, err, v, n)
		}
	}
	tryAll := func(b []byte) {
		try(b)
		v, n := readCompact(b)
		d := NewCompactU16Decoder(b)
		gv, err := d.ReadCompactU16()
		if (err == nil) != (n > 0) || err == nil && (gv != v || int(d.Position()) != n) || err != nil && d.Position() != 0 {
			c.Fail("ReadCompactU16 on %s = %d,%v at %d, want %d,%d", hx(b), gv, err, d.Position(), v, n)
		}
		rd := bytes.NewReader(b)
		gv, err = DecodeCompactU16LengthFromByteReader(rd)
		if (err == nil) != (n > 0) || err == nil && (gv != v || len(b)-rd.Len() != n) {
			c.Fail("DecodeCompactU16LengthFromByteReader(%s)=%d,%v (%d bytes used), want %d,%d", hx(b), gv, err, len(b)-rd.Len(), v, n)
		}
	}
	c.NoPanic("compact-u16 decoding", func() {
		tryAll(nil)
		b := make([]byte, 5)
		b[3], b[4] = 0x81, 1
		for i := 0; i < 1<<16; i++ {
			b[0], b[1] = byte(i), byte(i>>8)
			tryAll(b[:2])
			tryAll(b[:1])
		}
		step := 1
		for i := 0; i < 1<<24; i += step {
			b[0], b[1], b[2] = byte(i), byte(i>>8), byte(i>>16)
			try(b[:3])
			if i%61 == 0 {
				tryAll(b[:3])
				tryAll(b[:4])
				tryAll(b)
				b[3] = 0
				tryAll(b)
				b[3] = 0x81
				tryAll(b)
			}
		}
	})
	c.Count(1<<24 + 1<<17)
	_ = io.EOF
}
