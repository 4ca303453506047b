package bin

import (
	"encoding/binary"
	"io"
	"math"
)

// Representation invariant of a decoder.
func decOK(d *Decoder) bool { return d != nil && 0 <= g_pos(d) && g_pos(d) <= len(g_data(d)) }
func room(d *Decoder) int   { return len(g_data(d)) - g_pos(d) }

// readPost is shared by all primitive reads: the cursor moved by n on success and not at all on failure.
func readPost(d *Decoder, p0 int, err error, n int) {
	ensures("safe", "cursor stays inside the input", decOK(d))
	if err == nil {
		ensures("adv", "advances by exactly the item read", g_pos(d) == p0+n)
	} else {
		ensures("adv", "cursor unchanged on failure", g_pos(d) == p0)
	}
}

func contract_Decoder_ReadByte(dec *Decoder) func(out byte, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out byte, err error) {
		readPost(dec, p0, err, 1)
		ensures("val", "succeeds exactly when a byte remains", (err == nil) == (r >= 1))
		if err == nil {
			ensures("val", "value is the byte read", out == g_data(dec)[p0])
		}
	}
}
func contract_Decoder_ReadBool(dec *Decoder) func(out bool, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out bool, err error) {
		readPost(dec, p0, err, 1)
		ensures("val", "succeeds exactly when a byte remains", (err == nil) == (r >= 1))
		if err == nil {
			ensures("val", "true exactly for non-zero", out == (g_data(dec)[p0] != 0))
		}
	}
}
func contract_Decoder_ReadUint8(dec *Decoder) func(out uint8, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out uint8, err error) {
		readPost(dec, p0, err, 1)
		ensures("val", "succeeds exactly when a byte remains", (err == nil) == (r >= 1))
		if err == nil {
			ensures("val", "value is the byte read", out == g_data(dec)[p0])
		}
	}
}
func contract_Decoder_ReadInt8(dec *Decoder) func(out int8, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out int8, err error) {
		readPost(dec, p0, err, 1)
		ensures("val", "succeeds exactly when a byte remains", (err == nil) == (r >= 1))
		if err == nil {
			ensures("val", "value is the byte read", out == int8(g_data(dec)[p0]))
		}
	}
}
func contract_Decoder_ReadUint16(dec *Decoder, order binary.ByteOrder) func(out uint16, err error) {
	requires(decOK(dec) && isOrder(order))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out uint16, err error) {
		readPost(dec, p0, err, 2)
		ensures("val", "succeeds exactly when enough bytes remain", (err == nil) == (r >= 2))
		if err == nil {
			ensures("val", "value denoted by the bytes", out == get16(g_data(dec), p0, order))
		}
	}
}
func contract_Decoder_ReadInt16(dec *Decoder, order binary.ByteOrder) func(out int16, err error) {
	requires(decOK(dec) && isOrder(order))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out int16, err error) {
		readPost(dec, p0, err, 2)
		ensures("val", "succeeds exactly when enough bytes remain", (err == nil) == (r >= 2))
		if err == nil {
			ensures("val", "value denoted by the bytes", out == int16(get16(g_data(dec), p0, order)))
		}
	}
}
func contract_Decoder_ReadUint32(dec *Decoder, order binary.ByteOrder) func(out uint32, err error) {
	requires(decOK(dec) && isOrder(order))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out uint32, err error) {
		readPost(dec, p0, err, 4)
		ensures("val", "succeeds exactly when enough bytes remain", (err == nil) == (r >= 4))
		if err == nil {
			ensures("val", "value denoted by the bytes", out == get32(g_data(dec), p0, order))
		}
	}
}
func contract_Decoder_ReadInt32(dec *Decoder, order binary.ByteOrder) func(out int32, err error) {
	requires(decOK(dec) && isOrder(order))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out int32, err error) {
		readPost(dec, p0, err, 4)
		ensures("val", "succeeds exactly when enough bytes remain", (err == nil) == (r >= 4))
		if err == nil {
			ensures("val", "value denoted by the bytes", out == int32(get32(g_data(dec), p0, order)))
		}
	}
}
func contract_Decoder_ReadUint64(dec *Decoder, order binary.ByteOrder) func(out uint64, err error) {
	requires(decOK(dec) && isOrder(order))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out uint64, err error) {
		readPost(dec, p0, err, 8)
		ensures("val", "succeeds exactly when enough bytes remain", (err == nil) == (r >= 8))
		if err == nil {
			ensures("val", "value denoted by the bytes", out == get64(g_data(dec), p0, order))
		}
	}
}
func contract_Decoder_ReadInt64(dec *Decoder, order binary.ByteOrder) func(out int64, err error) {
	requires(decOK(dec) && isOrder(order))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out int64, err error) {
		readPost(dec, p0, err, 8)
		ensures("val", "succeeds exactly when enough bytes remain", (err == nil) == (r >= 8))
		if err == nil {
			ensures("val", "value denoted by the bytes", out == int64(get64(g_data(dec), p0, order)))
		}
	}
}
func contract_Decoder_ReadUint128(dec *Decoder, order binary.ByteOrder) func(out Uint128, err error) {
	requires(decOK(dec) && isOrder(order))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out Uint128, err error) {
		readPost(dec, p0, err, 16)
		ensures("val", "succeeds exactly when enough bytes remain", (err == nil) == (r >= 16))
		if err == nil {
			hi, lo := get128(g_data(dec), p0, order)
			ensures("val", "value denoted by the bytes", out.Hi == hi && out.Lo == lo)
		}
	}
}
func contract_Decoder_ReadInt128(dec *Decoder, order binary.ByteOrder) func(out Int128, err error) {
	requires(decOK(dec) && isOrder(order))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out Int128, err error) {
		readPost(dec, p0, err, 16)
		ensures("val", "succeeds exactly when enough bytes remain", (err == nil) == (r >= 16))
		if err == nil {
			hi, lo := get128(g_data(dec), p0, order)
			ensures("val", "value denoted by the bytes", out.Hi == hi && out.Lo == lo)
		}
	}
}
func contract_Decoder_ReadFloat128(dec *Decoder, order binary.ByteOrder) func(out Float128, err error) {
	requires(decOK(dec) && isOrder(order))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out Float128, err error) {
		readPost(dec, p0, err, 16)
		ensures("val", "succeeds exactly when enough bytes remain", (err == nil) == (r >= 16))
		if err == nil {
			hi, lo := get128(g_data(dec), p0, order)
			ensures("val", "value denoted by the bytes", out.Hi == hi && out.Lo == lo)
		}
	}
}

// ---- varints
func contract_Decoder_ReadUvarint64(dec *Decoder) func(out uint64, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0 := g_pos(dec)
	v, n := readUvarint(g_data(dec)[p0:])
	return func(out uint64, err error) {
		readPost(dec, p0, err, n)
		ensures("val", "succeeds exactly on a complete varint", (err == nil) == (n > 0))
		if err == nil {
			ensures("val", "value denoted by the varint", out == v)
		}
	}
}
func contract_Decoder_ReadVarint64(d *Decoder) func(out int64, err error) {
	requires(decOK(d))
	modifies(g_posp(d))
	p0 := g_pos(d)
	v, n := readUvarint(g_data(d)[p0:])
	return func(out int64, err error) {
		readPost(d, p0, err, n)
		ensures("val", "succeeds exactly on a complete varint", (err == nil) == (n > 0))
		if err == nil {
			ensures("val", "zig-zag value denoted by the varint", out == unzigzag(v))
		}
	}
}

func contract_Decoder_ReadVarint32(dec *Decoder) func(out int32, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0 := g_pos(dec)
	v, n := readUvarint(g_data(dec)[p0:])
	full := unzigzag(v)
	return func(out int32, err error) {
		readPost(dec, p0, err, n)
		ensures("val", "fails on anything but a complete varint", implies(n == 0, err != nil))
		ensures("val", "a varint of a value in range is returned unchanged", implies(n > 0 && int64(int32(full)) == full, err == nil && out == int32(full)))
	}
}

func contract_Decoder_ReadUvarint32(dec *Decoder) func(out uint32, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0 := g_pos(dec)
	v, n := readUvarint(g_data(dec)[p0:])
	full := v
	return func(out uint32, err error) {
		readPost(dec, p0, err, n)
		ensures("val", "fails on anything but a complete varint", implies(n == 0, err != nil))
		ensures("val", "a varint of a value in range is returned unchanged", implies(n > 0 && uint64(uint32(full)) == full, err == nil && out == uint32(full)))
	}
}

func contract_Decoder_ReadVarint16(dec *Decoder) func(out int16, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0 := g_pos(dec)
	v, n := readUvarint(g_data(dec)[p0:])
	full := unzigzag(v)
	return func(out int16, err error) {
		readPost(dec, p0, err, n)
		ensures("val", "fails on anything but a complete varint", implies(n == 0, err != nil))
		ensures("val", "a varint of a value in range is returned unchanged", implies(n > 0 && int64(int16(full)) == full, err == nil && out == int16(full)))
	}
}

func contract_Decoder_ReadUvarint16(dec *Decoder) func(out uint16, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0 := g_pos(dec)
	v, n := readUvarint(g_data(dec)[p0:])
	full := v
	return func(out uint16, err error) {
		readPost(dec, p0, err, n)
		ensures("val", "fails on anything but a complete varint", implies(n == 0, err != nil))
		ensures("val", "a varint of a value in range is returned unchanged", implies(n > 0 && uint64(uint16(full)) == full, err == nil && out == uint16(full)))
	}
}

func contract_Decoder_ReadCompactU16(dec *Decoder) func(out int, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0 := g_pos(dec)
	v, n := readCompact(g_data(dec)[p0:])
	return func(out int, err error) {
		readPost(dec, p0, err, n)
		ensures("val", "succeeds exactly on a canonical compact-u16", (err == nil) == (n > 0))
		if err == nil {
			ensures("val", "value denoted by the compact-u16", out == v)
		}
	}
}

func contract_Decoder_ReadCompactU16Length(dec *Decoder) func(out int, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0 := g_pos(dec)
	v, n := readCompact(g_data(dec)[p0:])
	return func(out int, err error) {
		readPost(dec, p0, err, n)
		ensures("val", "succeeds exactly on a canonical compact-u16", (err == nil) == (n > 0))
		if err == nil {
			ensures("val", "value denoted by the compact-u16", out == v)
		}
	}
}

func contract_DecodeCompactU16(bytes []byte) func(ln int, size int, err error) {
	v, n := readCompact(bytes)
	return func(ln int, size int, err error) {
		ensures("val,adv,safe", "succeeds exactly on a canonical compact-u16", (err == nil) == (n > 0))
		ensures("val,adv,safe", "number of bytes used (0 on failure)", size == n)
		if err == nil {
			ensures("val", "value denoted by the compact-u16", ln == v)
		}
	}
}
func contract_DecodeCompactU16LengthFromByteReader(reader io.ByteReader) func(ln int, err error) {
	requires(reader != nil)
	b := readerRest(reader)
	v, n := readCompact(b)
	return func(ln int, err error) {
		ensures("val", "succeeds exactly on a canonical compact-u16", (err == nil) == (n > 0))
		if err == nil {
			ensures("val", "value denoted by the compact-u16", ln == v)
		}
	}
}

// ---- options
func contract_Decoder_ReadOption(dec *Decoder) func(out bool, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out bool, err error) {
		readPost(dec, p0, err, 1)
		ensures("val", "succeeds exactly when a byte remains", (err == nil) == (r >= 1))
		if err == nil {
			ensures("val", "present exactly for a non-zero byte", out == (g_data(dec)[p0] != 0))
		}
	}
}
func contract_Decoder_ReadCOption(dec *Decoder) func(out bool, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	var v uint32
	if r >= 4 {
		v = get32(g_data(dec), p0, binary.LittleEndian)
	}
	return func(out bool, err error) {
		ensures("safe", "cursor stays inside the input", decOK(dec))
		if err == nil {
			ensures("adv", "advances by exactly the item read", g_pos(dec) == p0+4)
			ensures("val", "present exactly for 1", out == (v == 1))
		} else {
			ensures("adv", "cursor unchanged unless a complete invalid flag was read", g_pos(dec) == p0 || r >= 4 && g_pos(dec) == p0+4)
		}
		ensures("val", "succeeds exactly on a complete flag of 0 or 1", (err == nil) == (r >= 4 && v <= 1))
	}
}

// ---- floats
func contract_Decoder_ReadFloat32(dec *Decoder, order binary.ByteOrder) func(out float32, err error) {
	requires(decOK(dec) && isOrder(order))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	var bits uint32
	if r >= 4 {
		bits = get32(g_data(dec), p0, order)
	}
	nan := bits&0x7fffffff > 0x7f800000
	borsh := g_denc(dec) == EncodingBorsh
	return func(out float32, err error) {
		floatPost(dec, p0, r, 4, err)
		ensures("val", "succeeds exactly when enough bytes remain and Borsh sees no NaN", (err == nil) == (r >= 4 && !(borsh && nan)))
		if err == nil {
			ensures("val", "the float with exactly the bits read", math.Float32bits(out) == bits)
		}
	}
}
func contract_Decoder_ReadFloat64(dec *Decoder, order binary.ByteOrder) func(out float64, err error) {
	requires(decOK(dec) && isOrder(order))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	var bits uint64
	if r >= 8 {
		bits = get64(g_data(dec), p0, order)
	}
	nan := bits&0x7fffffffffffffff > 0x7ff0000000000000
	borsh := g_denc(dec) == EncodingBorsh
	return func(out float64, err error) {
		floatPost(dec, p0, r, 8, err)
		ensures("val", "succeeds exactly when enough bytes remain and Borsh sees no NaN", (err == nil) == (r >= 8 && !(borsh && nan)))
		if err == nil {
			ensures("val", "the float with exactly the bits read", math.Float64bits(out) == bits)
		}
	}
}
func floatPost(dec *Decoder, p0, r, n int, err error) {
	ensures("safe", "cursor stays inside the input", decOK(dec))
	if err == nil {
		ensures("adv", "advances by exactly the item read", g_pos(dec) == p0+n)
	} else {
		ensures("adv", "cursor unchanged unless a complete NaN was read", g_pos(dec) == p0 || r >= n && g_pos(dec) == p0+n)
	}
}

// ---- lengths, byte strings, strings
func contract_Decoder_ReadLength(dec *Decoder) func(length int, err error) {
	requires(decOK(dec) && validEnc(g_denc(dec)))
	modifies(g_posp(dec))
	p0 := g_pos(dec)
	v, n := readLen(g_denc(dec), g_data(dec), p0)
	raw := rawLen(g_denc(dec), g_data(dec), p0)
	return func(length int, err error) {
		ensures("safe", "cursor stays inside the input", decOK(dec))
		ensures("safe", "length is between 0 and 2^31-1", implies(err == nil, 0 <= length && length <= 0x7fffffff))
		if err == nil {
			ensures("adv", "advances by exactly the prefix", g_pos(dec) == p0+n)
			ensures("val", "length denoted by the prefix", length == v)
		} else {
			ensures("adv", "at most a complete, rejected prefix is consumed", g_pos(dec) == p0 || n == 0 && raw > 0 && g_pos(dec) == p0+raw)
		}
		ensures("val", "succeeds exactly on a valid prefix", (err == nil) == (n > 0))
	}
}
func contract_Decoder_ReadByteSlice(dec *Decoder) func(out []byte, err error) {
	requires(decOK(dec) && validEnc(g_denc(dec)))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	v, n := readLen(g_denc(dec), g_data(dec), p0)
	raw := rawLen(g_denc(dec), g_data(dec), p0)
	return func(out []byte, err error) {
		ensures("safe", "cursor stays inside the input", decOK(dec))
		ensures("val", "succeeds exactly when prefix and data are complete", (err == nil) == (n > 0 && v <= r-n))
		if err == nil {
			ensures("adv", "advances by prefix and data", g_pos(dec) == p0+n+v)
			ensuresSlice("val", "exactly the bytes after the prefix", out, g_data(dec)[p0+n:p0+n+v])
		} else {
			ensures("adv", "at most the prefix is consumed", g_pos(dec) == p0 || raw > 0 && g_pos(dec) == p0+raw)
			ensures("val", "no data on failure", len(out) == 0)
		}
	}
}
func contract_Decoder_ReadString(dec *Decoder) func(out string, err error) {
	requires(decOK(dec) && validEnc(g_denc(dec)))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	v, n := readLen(g_denc(dec), g_data(dec), p0)
	raw := rawLen(g_denc(dec), g_data(dec), p0)
	return func(out string, err error) {
		ensures("safe", "cursor stays inside the input", decOK(dec))
		ensures("val", "succeeds exactly when prefix and data are complete", (err == nil) == (n > 0 && v <= r-n))
		if err == nil {
			ensures("adv", "advances by prefix and data", g_pos(dec) == p0+n+v)
			ensuresString("val", "exactly the bytes after the prefix", out, seqOf(g_data(dec)[p0+n:p0+n+v]))
		} else {
			ensures("adv", "at most the prefix is consumed", g_pos(dec) == p0 || raw > 0 && g_pos(dec) == p0+raw)
			ensures("val", "no data on failure", len(out) == 0)
		}
	}
}
func contract_Decoder_SafeReadUTF8String(dec *Decoder) func(out string, err error) {
	requires(decOK(dec) && validEnc(g_denc(dec)))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	v, n := readLen(g_denc(dec), g_data(dec), p0)
	raw := rawLen(g_denc(dec), g_data(dec), p0)
	return func(out string, err error) {
		ensures("safe", "cursor stays inside the input", decOK(dec))
		ensures("val", "succeeds exactly when prefix and data are complete", (err == nil) == (n > 0 && v <= r-n))
		if err == nil {
			ensures("adv", "advances by prefix and data", g_pos(dec) == p0+n+v)
		} else {
			ensures("adv", "at most the prefix is consumed", g_pos(dec) == p0 || raw > 0 && g_pos(dec) == p0+raw)
		}
	}
}
func contract_Decoder_ReadRustString(dec *Decoder) func(out string, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	var n uint64
	if r >= 8 {
		n = get64(g_data(dec), p0, binary.LittleEndian)
	}
	ok := r >= 8 && n <= 0x7fffffff && int(n) <= r-8
	return func(out string, err error) {
		ensures("safe", "cursor stays inside the input", decOK(dec))
		ensures("val", "succeeds exactly when prefix and data are complete", (err == nil) == ok)
		if err == nil {
			ensures("adv", "advances by prefix and data", g_pos(dec) == p0+8+int(n))
			ensuresString("val", "exactly the bytes after the prefix", out, seqOf(g_data(dec)[p0+8:p0+8+int(n)]))
		} else {
			ensures("adv", "at most the prefix is consumed", g_pos(dec) == p0 || r >= 8 && g_pos(dec) == p0+8)
			ensures("val", "no data on failure", len(out) == 0)
		}
	}
}

// ---- raw bytes and the cursor
func contract_Decoder_ReadNBytes(dec *Decoder, n int) func(out []byte, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out []byte, err error) {
		readPost(dec, p0, err, n)
		ensures("val,safe", "succeeds exactly when n bytes remain", (err == nil) == (0 <= n && n <= r && n <= 0x7fffffff))
		if err == nil {
			ensuresSlice("val,safe", "exactly the next n bytes", out, g_data(dec)[p0:p0+n])
		} else {
			ensures("val", "no data on failure", len(out) == 0)
		}
	}
}
func contract_Decoder_ReadBytes(dec *Decoder, n int) func(out []byte, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out []byte, err error) {
		readPost(dec, p0, err, n)
		ensures("val,safe", "succeeds exactly when n bytes remain", (err == nil) == (0 <= n && n <= r && n <= 0x7fffffff))
		if err == nil {
			ensuresSlice("val,safe", "exactly the next n bytes", out, g_data(dec)[p0:p0+n])
		} else {
			ensures("val", "no data on failure", len(out) == 0)
		}
	}
}
func contract_readNBytes(n int, reader *Decoder) func(out []byte, err error) {
	requires(decOK(reader))
	modifies(g_posp(reader))
	p0, r := g_pos(reader), room(reader)
	return func(out []byte, err error) {
		readPost(reader, p0, err, n)
		ensures("val,safe", "succeeds exactly when n bytes remain", (err == nil) == (0 <= n && n <= r && n <= 0x7fffffff))
		if err == nil {
			ensuresSlice("val,safe", "exactly the next n bytes", out, g_data(reader)[p0:p0+n])
		} else {
			ensures("val", "no data on failure", len(out) == 0)
		}
	}
}
func contract_Decoder_Peek(dec *Decoder, n int) func(out []byte, err error) {
	requires(decOK(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out []byte, err error) {
		ensures("safe", "cursor stays inside the input", decOK(dec))
		ensures("adv", "peeking does not move the cursor", g_pos(dec) == p0)
		ensures("val,safe", "succeeds exactly when n bytes remain", (err == nil) == (0 <= n && n <= r))
		if err == nil {
			ensuresSlice("val,safe", "exactly the next n bytes", out, g_data(dec)[p0:p0+n])
		}
	}
}
func contract_Decoder_Read(d *Decoder, buf []byte) func(n int, err error) {
	requires(decOK(d))
	modifies(g_posp(d))
	modifiesSlice(buf)
	p0, r := g_pos(d), room(d)
	return func(n int, err error) {
		readPost(d, p0, err, len(buf))
		ensures("val", "succeeds exactly when len(buf) bytes remain", (err == nil) == (len(buf) <= r))
		if err == nil {
			ensures("val", "reports len(buf) bytes", n == len(buf))
			ensuresContent("val", "buf holds exactly the next bytes", buf, seqOf(g_data(d)[p0:p0+len(buf)]))
		}
	}
}
func contract_Decoder_SkipBytes(dec *Decoder, count uint) func(err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(err error) {
		readPost(dec, p0, err, int(count))
		ensures("val,adv", "succeeds exactly when count bytes remain", (err == nil) == (count <= uint(r)))
	}
}
func contract_Decoder_Discard(dec *Decoder, n int) func(err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(err error) {
		readPost(dec, p0, err, n)
		ensures("val,adv", "succeeds exactly when n bytes remain", (err == nil) == (0 <= n && n <= r && n <= 0x7fffffff))
	}
}
func contract_Decoder_SetPosition(dec *Decoder, idx uint) func(err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0 := g_pos(dec)
	return func(err error) {
		ensures("safe", "cursor stays inside the input", decOK(dec))
		if err == nil {
			ensures("adv", "moves to the requested index", uint(g_pos(dec)) == idx)
		} else {
			ensures("adv", "cursor unchanged on failure", g_pos(dec) == p0)
		}
		ensures("val,adv", "an index inside the input is accepted and one beyond it rejected", implies(idx < uint(len(g_data(dec))), err == nil) && implies(idx > uint(len(g_data(dec))), err != nil))
	}
}
func contract_Decoder_Position(dec *Decoder) func(r uint) {
	requires(decOK(dec))
	return func(r uint) { ensures("safe,adv,val", "reports the cursor", r == uint(g_pos(dec))) }
}
func contract_Decoder_Remaining(dec *Decoder) func(r int) {
	requires(decOK(dec))
	return func(r int) {
		ensures("safe,adv,val", "position plus remaining is the input length", r == len(g_data(dec))-g_pos(dec))
	}
}
func contract_Decoder_Len(dec *Decoder) func(r int) {
	return func(r int) { ensures("safe,adv,val", "reports the input length", r == len(g_data(dec))) }
}
func contract_Decoder_HasRemaining(dec *Decoder) func(r bool) {
	requires(decOK(dec))
	return func(r bool) {
		ensures("safe,adv,val", "true exactly when bytes remain", r == (g_pos(dec) < len(g_data(dec))))
	}
}
func contract_Decoder_Reset(dec *Decoder, data []byte) func() {
	modifies(g_posp(dec), g_datap(dec), g_doptp(dec))
	return func() {
		ensures("safe", "cursor at the start of the new input", g_pos(dec) == 0 && len(g_data(dec)) == len(data))
		ensuresSlice("safe", "reads the new input", g_data(dec), data)
	}
}
func contractv_NewDecoderWithEncoding(data []byte, enc Encoding) func(dec *Decoder) {
	panicsWhen(!validEnc(enc))
	return func(dec *Decoder) {
		ensures("safe", "a new decoder starts at position 0 in the given encoding", dec != nil && g_pos(dec) == 0 && len(g_data(dec)) == len(data) && g_denc(dec) == enc)
	}
}

// ---- type ids
func contract_Decoder_ReadTypeID(dec *Decoder) func(out TypeID, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out TypeID, err error) {
		readPost(dec, p0, err, 8)
		ensures("val", "succeeds exactly when 8 bytes remain", (err == nil) == (r >= 8))
		if err == nil {
			ensures("val", "exactly the 8 bytes read", out == tidOf(g_data(dec)[p0:p0+8]))
		}
	}
}
func contract_Decoder_ReadDiscriminator(dec *Decoder) func(out TypeID, err error) {
	requires(decOK(dec))
	modifies(g_posp(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out TypeID, err error) {
		readPost(dec, p0, err, 8)
		ensures("val", "succeeds exactly when 8 bytes remain", (err == nil) == (r >= 8))
		if err == nil {
			ensures("val", "exactly the 8 bytes read", out == tidOf(g_data(dec)[p0:p0+8]))
		}
	}
}
func contract_Decoder_PeekDiscriminator(dec *Decoder) func(out TypeID, err error) {
	requires(decOK(dec))
	p0, r := g_pos(dec), room(dec)
	return func(out TypeID, err error) {
		ensures("safe", "cursor stays inside the input", decOK(dec))
		ensures("adv", "peeking does not move the cursor", g_pos(dec) == p0)
		ensures("val", "succeeds exactly when 8 bytes remain", (err == nil) == (r >= 8))
		if err == nil {
			ensures("val", "exactly the next 8 bytes", out == tidOf(g_data(dec)[p0:p0+8]))
		}
	}
}
