package bin

import (
	"encoding/binary"
	"math"
)

// ---- mathematical wire forms, written independently of the implementation

func isOrder(o binary.ByteOrder) bool {
	return o == binary.ByteOrder(binary.LittleEndian) || o == binary.ByteOrder(binary.BigEndian)
}
func isBE(o binary.ByteOrder) bool { return o == binary.ByteOrder(binary.BigEndian) }

func spec16(v uint16, o binary.ByteOrder) Seq {
	if isBE(o) {
		return seqB(byte(v>>8), byte(v))
	}
	return seqB(byte(v), byte(v>>8))
}
func spec32(v uint32, o binary.ByteOrder) Seq {
	if isBE(o) {
		return seqB(byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return seqB(byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}
func spec64(v uint64, o binary.ByteOrder) Seq {
	if isBE(o) {
		return seqB(byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
	return seqB(byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
}
func spec128(hi, lo uint64, o binary.ByteOrder) Seq {
	if isBE(o) {
		return cat(spec64(hi, o), spec64(lo, o))
	}
	return cat(spec64(lo, o), spec64(hi, o))
}
func specBool(b bool) Seq {
	if b {
		return seqB(1)
	}
	return seqB(0)
}

// specUvarint is the minimal base-128 form, least significant group first.
func specUvarint(v uint64) Seq {
	switch {
	case v < 1<<7:
		return seqB(byte(v))
	case v < 1<<14:
		return seqB(byte(v)|0x80, byte(v>>7))
	case v < 1<<21:
		return seqB(byte(v)|0x80, byte(v>>7)|0x80, byte(v>>14))
	case v < 1<<28:
		return seqB(byte(v)|0x80, byte(v>>7)|0x80, byte(v>>14)|0x80, byte(v>>21))
	case v < 1<<35:
		return seqB(byte(v)|0x80, byte(v>>7)|0x80, byte(v>>14)|0x80, byte(v>>21)|0x80, byte(v>>28))
	case v < 1<<42:
		return seqB(byte(v)|0x80, byte(v>>7)|0x80, byte(v>>14)|0x80, byte(v>>21)|0x80, byte(v>>28)|0x80, byte(v>>35))
	case v < 1<<49:
		return seqB(byte(v)|0x80, byte(v>>7)|0x80, byte(v>>14)|0x80, byte(v>>21)|0x80, byte(v>>28)|0x80, byte(v>>35)|0x80, byte(v>>42))
	case v < 1<<56:
		return seqB(byte(v)|0x80, byte(v>>7)|0x80, byte(v>>14)|0x80, byte(v>>21)|0x80, byte(v>>28)|0x80, byte(v>>35)|0x80, byte(v>>42)|0x80, byte(v>>49))
	case v < 1<<63:
		return seqB(byte(v)|0x80, byte(v>>7)|0x80, byte(v>>14)|0x80, byte(v>>21)|0x80, byte(v>>28)|0x80, byte(v>>35)|0x80, byte(v>>42)|0x80, byte(v>>49)|0x80, byte(v>>56))
	}
	return seqB(byte(v)|0x80, byte(v>>7)|0x80, byte(v>>14)|0x80, byte(v>>21)|0x80, byte(v>>28)|0x80, byte(v>>35)|0x80, byte(v>>42)|0x80, byte(v>>49)|0x80, byte(v>>56)|0x80, 1)
}
func zigzag(v int64) uint64   { return uint64(v)<<1 ^ uint64(v>>63) }
func unzigzag(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

func specVarint(v int64) Seq { return specUvarint(zigzag(v)) }

// opaque_uvarint stands for specUvarint where its shape does not matter.
func opaque_uvarint(v uint64) Seq { return specUvarint(v) } // uninterpreted in proofs until unfolded; executable in the harness
func unfold_uvarint(v uint64) Seq { return specUvarint(v) }

// readUvarint is the meaning of the varint at the start of b: its value and size; size 0 means there is no valid varint.
func readUvarint(b []byte) (v uint64, size int) {
	var shift uint
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			return 0, 0
		}
		if b[i] < 0x80 {
			if i == 9 && b[i] > 1 {
				return 0, 0
			}
			return v | uint64(b[i])<<shift, i + 1
		}
		v |= uint64(b[i]&0x7f) << shift
		shift += 7
	}
	return 0, 0
}

// specCompact is the unique shortest compact-u16 form of n (0 <= n <= 65535).
func specCompact(n int) Seq {
	switch {
	case n < 1<<7:
		return seqB(byte(n))
	case n < 1<<14:
		return seqB(byte(n)|0x80, byte(n>>7))
	}
	return seqB(byte(n)|0x80, byte(n>>7)|0x80, byte(n>>14))
}
func compactOK(n int) bool { return 0 <= n && n <= 65535 }

// readCompact is the meaning of the compact-u16 at b: value and size; size 0 means invalid.
func readCompact(b []byte) (v int, size int) {
	if len(b) < 1 {
		return 0, 0
	}
	if b[0] < 0x80 {
		return int(b[0]), 1
	}
	if len(b) < 2 || b[1] == 0 {
		return 0, 0
	}
	if b[1] < 0x80 {
		return int(b[0]&0x7f) | int(b[1])<<7, 2
	}
	if len(b) < 3 || b[2] == 0 || b[2] > 3 {
		return 0, 0
	}
	return int(b[0]&0x7f) | int(b[1]&0x7f)<<7 | int(b[2])<<14, 3
}

func get16(d []byte, p int, o binary.ByteOrder) uint16 {
	if isBE(o) {
		return uint16(d[p])<<8 | uint16(d[p+1])
	}
	return uint16(d[p+1])<<8 | uint16(d[p])
}
func get32(d []byte, p int, o binary.ByteOrder) uint32 {
	if isBE(o) {
		return uint32(d[p])<<24 | uint32(d[p+1])<<16 | uint32(d[p+2])<<8 | uint32(d[p+3])
	}
	return uint32(d[p+3])<<24 | uint32(d[p+2])<<16 | uint32(d[p+1])<<8 | uint32(d[p])
}
func get64(d []byte, p int, o binary.ByteOrder) uint64 {
	if isBE(o) {
		return uint64(get32(d, p, o))<<32 | uint64(get32(d, p+4, o))
	}
	return uint64(get32(d, p+4, o))<<32 | uint64(get32(d, p, o))
}
func get128(d []byte, p int, o binary.ByteOrder) (hi, lo uint64) {
	if isBE(o) {
		return get64(d, p, o), get64(d, p+8, o)
	}
	return get64(d, p+8, o), get64(d, p, o)
}

func nan32(f float32) bool { return math.Float32bits(f)&0x7fffffff > 0x7f800000 }
func nan64(f float64) bool { return math.Float64bits(f)&0x7fffffffffffffff > 0x7ff0000000000000 }

func validEnc(e Encoding) bool {
	return e == EncodingBin || e == EncodingBorsh || e == EncodingCompactU16
}

// specLen is an encoding's length prefix.
func specLen(enc Encoding, n int) Seq {
	switch enc {
	case EncodingBin:
		return opaque_uvarint(uint64(n))
	case EncodingBorsh:
		return spec32(uint32(n), binary.LittleEndian)
	}
	return specCompact(n)
}

// readLen is the meaning of the length prefix at data[pos:]; size 0 means invalid.
func readLen(enc Encoding, data []byte, pos int) (n int, size int) {
	switch enc {
	case EncodingBin:
		v, s := readUvarint(data[pos:])
		if s == 0 || v > 0x7fffffff {
			return 0, 0
		}
		return int(v), s
	case EncodingBorsh:
		if pos+4 > len(data) {
			return 0, 0
		}
		v := get32(data, pos, binary.LittleEndian)
		if v > 0x7fffffff {
			return 0, 0
		}
		return int(v), 4
	}
	return readCompact(data[pos:])
}

// rawLen is the size of a complete length prefix at data[pos:], even if its value is rejected; 0 if there is none.
func rawLen(enc Encoding, data []byte, pos int) int {
	switch enc {
	case EncodingBin:
		_, s := readUvarint(data[pos:])
		return s
	case EncodingBorsh:
		if pos+4 > len(data) {
			return 0
		}
		return 4
	}
	_, s := readCompact(data[pos:])
	return s
}

// tidOf keeps the first eight bytes, zero-padded.
func tidOf(b []byte) TypeID {
	return TypeID{byteAt(b, 0), byteAt(b, 1), byteAt(b, 2), byteAt(b, 3), byteAt(b, 4), byteAt(b, 5), byteAt(b, 6), byteAt(b, 7)}
}
func byteAt(b []byte, i int) byte {
	if i < len(b) {
		return b[i]
	}
	return 0
}
