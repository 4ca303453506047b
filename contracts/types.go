package bin

import (
	"crypto/sha256"
	"encoding/binary"
	"math"
	"math/big"
)

// ---- the library's own types: contracts of their marshalers

func orderOr(o *g_option, own binary.ByteOrder) binary.ByteOrder {
	if o != nil {
		return g_optOrder(o)
	}
	if own == nil {
		return binary.LittleEndian
	}
	return own
}
func ownOrderOK(o binary.ByteOrder) bool { return o == nil || isOrder(o) }
func optOK(o *g_option) bool             { return o == nil || isOrder(g_optOrder(o)) }

func contract_Bool_MarshalWithEncoder(v Bool, enc *Encoder) func(err error) {
	requires(encOK(enc))
	modifies(g_countp(enc))
	modifiesOut(enc)
	s := snapW(enc)
	return func(err error) { writePost(enc, s, err, true, specBool(bool(v))) }
}
func contract_Varint16_MarshalWithEncoder(v Varint16, enc *Encoder) func(err error) {
	requires(encOK(enc))
	modifies(g_countp(enc))
	modifiesOut(enc)
	s := snapW(enc)
	return func(err error) { writePost(enc, s, err, true, specVarint(int64(v))) }
}
func contract_Varint32_MarshalWithEncoder(v Varint32, enc *Encoder) func(err error) {
	requires(encOK(enc))
	modifies(g_countp(enc))
	modifiesOut(enc)
	s := snapW(enc)
	return func(err error) { writePost(enc, s, err, true, specVarint(int64(v))) }
}
func contract_Varuint16_MarshalWithEncoder(v Varuint16, enc *Encoder) func(err error) {
	requires(encOK(enc))
	modifies(g_countp(enc))
	modifiesOut(enc)
	s := snapW(enc)
	return func(err error) { writePost(enc, s, err, true, opaque_uvarint(uint64(v))) }
}
func contract_Varuint32_MarshalWithEncoder(v Varuint32, enc *Encoder) func(err error) {
	requires(encOK(enc))
	modifies(g_countp(enc))
	modifiesOut(enc)
	s := snapW(enc)
	return func(err error) { writePost(enc, s, err, true, opaque_uvarint(uint64(v))) }
}
func contract_Int64_MarshalWithEncoder(v Int64, enc *Encoder) func(err error) {
	requires(encOK(enc) && g_eopt(enc) != nil && isOrder(g_optOrder(g_eopt(enc))))
	modifies(g_countp(enc))
	modifiesOut(enc)
	s := snapW(enc)
	order := g_optOrder(g_eopt(enc))
	return func(err error) { writePost(enc, s, err, true, spec64(uint64(v), order)) }
}
func contract_Uint64_MarshalWithEncoder(v Uint64, enc *Encoder) func(err error) {
	requires(encOK(enc) && g_eopt(enc) != nil && isOrder(g_optOrder(g_eopt(enc))))
	modifies(g_countp(enc))
	modifiesOut(enc)
	s := snapW(enc)
	order := g_optOrder(g_eopt(enc))
	return func(err error) { writePost(enc, s, err, true, spec64(uint64(v), order)) }
}
func contract_JSONFloat64_MarshalWithEncoder(v JSONFloat64, enc *Encoder) func(err error) {
	requires(encOK(enc) && g_eopt(enc) != nil && isOrder(g_optOrder(g_eopt(enc))))
	modifies(g_countp(enc))
	modifiesOut(enc)
	s := snapW(enc)
	order := g_optOrder(g_eopt(enc))
	ok := !(g_eenc(enc) == EncodingBorsh && nan64(float64(v)))
	return func(err error) { writePost(enc, s, err, ok, spec64(math.Float64bits(float64(v)), order)) }
}
func contract_Uint128_MarshalWithEncoder(v Uint128, enc *Encoder) func(err error) {
	requires(encOK(enc) && optOK(g_eopt(enc)) && ownOrderOK(v.Endianness))
	modifies(g_countp(enc))
	modifiesOut(enc)
	s := snapW(enc)
	order := orderOr(g_eopt(enc), v.Endianness)
	return func(err error) { writePost(enc, s, err, true, spec128(v.Hi, v.Lo, order)) }
}
func contract_Int128_MarshalWithEncoder(v Int128, enc *Encoder) func(err error) {
	requires(encOK(enc) && optOK(g_eopt(enc)) && ownOrderOK(v.Endianness))
	modifies(g_countp(enc))
	modifiesOut(enc)
	s := snapW(enc)
	order := orderOr(g_eopt(enc), v.Endianness)
	return func(err error) { writePost(enc, s, err, true, spec128(v.Hi, v.Lo, order)) }
}
func contract_Float128_MarshalWithEncoder(v Float128, enc *Encoder) func(err error) {
	requires(encOK(enc) && optOK(g_eopt(enc)) && ownOrderOK(v.Endianness))
	modifies(g_countp(enc))
	modifiesOut(enc)
	s := snapW(enc)
	order := orderOr(g_eopt(enc), v.Endianness)
	return func(err error) { writePost(enc, s, err, true, spec128(v.Hi, v.Lo, order)) }
}
func contract_SafeString_MarshalWithEncoder(v SafeString, enc *Encoder) func(err error) {
	requires(encOK(enc))
	modifies(g_countp(enc))
	modifiesOut(enc)
	s := snapW(enc)
	e := g_eenc(enc)
	body := seqStr(string(v))
	return func(err error) {
		if e != EncodingCompactU16 && !lenOK(e, len(v)) {
			anyPost(enc, s, err)
			return
		}
		writePost(enc, s, err, lenOK(e, len(v)), cat(specLen(e, len(v)), body))
	}
}
func contract_HexBytes_MarshalWithEncoder(v HexBytes, enc *Encoder) func(err error) {
	requires(encOK(enc))
	modifies(g_countp(enc))
	modifiesOut(enc)
	s := snapW(enc)
	e := g_eenc(enc)
	body := seqOf([]byte(v))
	return func(err error) {
		if e != EncodingCompactU16 && !lenOK(e, len(v)) {
			anyPost(enc, s, err)
			return
		}
		writePost(enc, s, err, lenOK(e, len(v)), cat(specLen(e, len(v)), body))
	}
}
func contract_Bool_UnmarshalWithDecoder(v *Bool, dec *Decoder) func(err error) {
	requires(v != nil && decOK(dec))
	modifies(g_posp(dec), v)
	p0, r := g_pos(dec), room(dec)
	old := *v
	return func(err error) {
		readPost(dec, p0, err, 1)
		ensures("val", "succeeds exactly on a complete item", (err == nil) == (r >= 1))
		if err == nil {
			ensures("val", "stores the value denoted by the bytes", bool(*v) == (g_data(dec)[p0] != 0))
		} else {
			ensures("val", "leaves the target alone on failure", *v == old)
		}
	}
}
func contract_Varint16_UnmarshalWithDecoder(v *Varint16, dec *Decoder) func(err error) {
	requires(v != nil && decOK(dec))
	modifies(g_posp(dec), v)
	p0 := g_pos(dec)
	old := *v
	u, n := readUvarint(g_data(dec)[p0:])
	full := unzigzag(u)
	return func(err error) {
		readPost(dec, p0, err, n)
		ensures("val", "fails on anything but a complete varint", implies(n == 0, err != nil))
		ensures("val", "a varint of a value in range is stored unchanged", implies(n > 0 && int64(int16(full)) == full, err == nil && *v == Varint16(full)))
		if err != nil {
			ensures("val", "leaves the target alone on failure", *v == old)
		}
	}
}
func contract_Varint32_UnmarshalWithDecoder(v *Varint32, dec *Decoder) func(err error) {
	requires(v != nil && decOK(dec))
	modifies(g_posp(dec), v)
	p0 := g_pos(dec)
	old := *v
	u, n := readUvarint(g_data(dec)[p0:])
	full := unzigzag(u)
	return func(err error) {
		readPost(dec, p0, err, n)
		ensures("val", "fails on anything but a complete varint", implies(n == 0, err != nil))
		ensures("val", "a varint of a value in range is stored unchanged", implies(n > 0 && int64(int32(full)) == full, err == nil && *v == Varint32(full)))
		if err != nil {
			ensures("val", "leaves the target alone on failure", *v == old)
		}
	}
}
func contract_Varuint16_UnmarshalWithDecoder(v *Varuint16, dec *Decoder) func(err error) {
	requires(v != nil && decOK(dec))
	modifies(g_posp(dec), v)
	p0 := g_pos(dec)
	old := *v
	u, n := readUvarint(g_data(dec)[p0:])
	full := u
	return func(err error) {
		readPost(dec, p0, err, n)
		ensures("val", "fails on anything but a complete varint", implies(n == 0, err != nil))
		ensures("val", "a varint of a value in range is stored unchanged", implies(n > 0 && uint64(uint16(full)) == full, err == nil && *v == Varuint16(full)))
		if err != nil {
			ensures("val", "leaves the target alone on failure", *v == old)
		}
	}
}
func contract_Varuint32_UnmarshalWithDecoder(v *Varuint32, dec *Decoder) func(err error) {
	requires(v != nil && decOK(dec))
	modifies(g_posp(dec), v)
	p0 := g_pos(dec)
	old := *v
	u, n := readUvarint(g_data(dec)[p0:])
	full := u
	return func(err error) {
		readPost(dec, p0, err, n)
		ensures("val", "fails on anything but a complete varint", implies(n == 0, err != nil))
		ensures("val", "a varint of a value in range is stored unchanged", implies(n > 0 && uint64(uint32(full)) == full, err == nil && *v == Varuint32(full)))
		if err != nil {
			ensures("val", "leaves the target alone on failure", *v == old)
		}
	}
}
func contract_Int64_UnmarshalWithDecoder(v *Int64, dec *Decoder) func(err error) {
	requires(v != nil && decOK(dec) && g_dopt(dec) != nil && isOrder(g_optOrder(g_dopt(dec))))
	modifies(g_posp(dec), v)
	p0, r := g_pos(dec), room(dec)
	old := *v
	order := g_optOrder(g_dopt(dec))
	return func(err error) {
		readPost(dec, p0, err, 8)
		ensures("val", "succeeds exactly on a complete item", (err == nil) == (r >= 8))
		if err == nil {
			ensures("val", "stores the value denoted by the bytes", *v == Int64(get64(g_data(dec), p0, order)))
		} else {
			ensures("val", "leaves the target alone on failure", *v == old)
		}
	}
}
func contract_Uint64_UnmarshalWithDecoder(v *Uint64, dec *Decoder) func(err error) {
	requires(v != nil && decOK(dec) && g_dopt(dec) != nil && isOrder(g_optOrder(g_dopt(dec))))
	modifies(g_posp(dec), v)
	p0, r := g_pos(dec), room(dec)
	old := *v
	order := g_optOrder(g_dopt(dec))
	return func(err error) {
		readPost(dec, p0, err, 8)
		ensures("val", "succeeds exactly on a complete item", (err == nil) == (r >= 8))
		if err == nil {
			ensures("val", "stores the value denoted by the bytes", *v == Uint64(get64(g_data(dec), p0, order)))
		} else {
			ensures("val", "leaves the target alone on failure", *v == old)
		}
	}
}
func contract_Uint128_UnmarshalWithDecoder(v *Uint128, dec *Decoder) func(err error) {
	requires(v != nil && decOK(dec) && optOK(g_dopt(dec)) && ownOrderOK(v.Endianness))
	modifies(g_posp(dec), v)
	p0, r := g_pos(dec), room(dec)
	old := *v
	order := orderOr(g_dopt(dec), v.Endianness)
	return func(err error) {
		readPost(dec, p0, err, 16)
		ensures("val", "succeeds exactly when sixteen bytes remain", (err == nil) == (r >= 16))
		if err == nil {
			hi, lo := get128(g_data(dec), p0, order)
			ensures("val", "stores the value denoted by the bytes", v.Hi == hi && v.Lo == lo)
		} else {
			ensures("val", "leaves the target alone on failure", v.Hi == old.Hi && v.Lo == old.Lo)
		}
	}
}
func contract_Int128_UnmarshalWithDecoder(v *Int128, dec *Decoder) func(err error) {
	requires(v != nil && decOK(dec) && optOK(g_dopt(dec)) && ownOrderOK(v.Endianness))
	modifies(g_posp(dec), v)
	p0, r := g_pos(dec), room(dec)
	old := *v
	order := orderOr(g_dopt(dec), v.Endianness)
	return func(err error) {
		readPost(dec, p0, err, 16)
		ensures("val", "succeeds exactly when sixteen bytes remain", (err == nil) == (r >= 16))
		if err == nil {
			hi, lo := get128(g_data(dec), p0, order)
			ensures("val", "stores the value denoted by the bytes", v.Hi == hi && v.Lo == lo)
		} else {
			ensures("val", "leaves the target alone on failure", v.Hi == old.Hi && v.Lo == old.Lo)
		}
	}
}
func contract_Float128_UnmarshalWithDecoder(v *Float128, dec *Decoder) func(err error) {
	requires(v != nil && decOK(dec) && optOK(g_dopt(dec)) && ownOrderOK(v.Endianness))
	modifies(g_posp(dec), v)
	p0, r := g_pos(dec), room(dec)
	old := *v
	order := orderOr(g_dopt(dec), v.Endianness)
	return func(err error) {
		readPost(dec, p0, err, 16)
		ensures("val", "succeeds exactly when sixteen bytes remain", (err == nil) == (r >= 16))
		if err == nil {
			hi, lo := get128(g_data(dec), p0, order)
			ensures("val", "stores the value denoted by the bytes", v.Hi == hi && v.Lo == lo)
		} else {
			ensures("val", "leaves the target alone on failure", v.Hi == old.Hi && v.Lo == old.Lo)
		}
	}
}
func contract_JSONFloat64_UnmarshalWithDecoder(v *JSONFloat64, dec *Decoder) func(err error) {
	requires(v != nil && decOK(dec) && g_dopt(dec) != nil && isOrder(g_optOrder(g_dopt(dec))))
	modifies(g_posp(dec), v)
	p0, r := g_pos(dec), room(dec)
	order := g_optOrder(g_dopt(dec))
	borsh := g_denc(dec) == EncodingBorsh
	return func(err error) {
		ensures("safe", "cursor stays inside the input", decOK(dec))
		if r < 8 {
			ensures("val", "too short is an error", err != nil)
			ensures("adv", "cursor unchanged on failure", g_pos(dec) == p0)
			return
		}
		b := get64(g_data(dec), p0, order)
		ensures("val", "rejects NaN in Borsh only", (err == nil) == !(borsh && nan64(math.Float64frombits(b))))
		if err == nil {
			ensures("adv", "advances by exactly the item read", g_pos(dec) == p0+8)
			ensures("val", "stores the float with those bits", math.Float64bits(float64(*v)) == b)
		}
	}
}

// ---- numeric views of the 128-bit types

func big128(hi, lo uint64) *big.Int {
	v := new(big.Int).SetUint64(hi)
	v.Lsh(v, 64)
	return v.Add(v, new(big.Int).SetUint64(lo))
}
func sbig128(hi, lo uint64) *big.Int {
	v := big128(hi, lo)
	if hi>>63 == 1 {
		m := new(big.Int).SetUint64(1)
		m.Lsh(m, 128)
		v.Sub(v, m)
	}
	return v
}
func contractv_Uint128_getByteOrder(i Uint128) func(o binary.ByteOrder) {
	requires(ownOrderOK(i.Endianness))
	own := i.Endianness
	return func(o binary.ByteOrder) {
		ensures("val", "the tagged order, little endian by default", o == orderOr(nil, own))
	}
}
func contractv_Uint128_Bytes(i Uint128) func(b []byte) {
	requires(ownOrderOK(i.Endianness))
	return func(b []byte) {
		ensuresSeq("val", "big-endian bytes of the value, whatever the order tag", seqOf(b), spec128(i.Hi, i.Lo, binary.BigEndian))
	}
}
func contractv_Uint128_BigInt(i Uint128) func(v *big.Int) {
	requires(ownOrderOK(i.Endianness))
	return func(v *big.Int) {
		ensures("val", "Hi*2^64+Lo", v.Cmp(big128(i.Hi, i.Lo)) == 0)
	}
}
func contractv_Int128_BigInt(i Int128) func(v *big.Int) {
	requires(ownOrderOK(i.Endianness))
	return func(v *big.Int) {
		ensures("val", "two's complement of Hi*2^64+Lo", v.Cmp(sbig128(i.Hi, i.Lo)) == 0)
	}
}

// ---- type ids

func contract_TypeIDFromBytes(slice []byte) func(id TypeID) {
	return func(id TypeID) {
		ensures("val", "keeps up to eight bytes, zero-padded", id == tidOf(slice))
	}
}
func contractv_TypeIDFromSighash(sh []byte) func(id TypeID) {
	return func(id TypeID) {
		ensures("val", "keeps up to eight bytes, zero-padded", id == tidOf(sh))
	}
}
func contractv_TypeIDFromUint8(v uint8) func(id TypeID) {
	return func(id TypeID) {
		ensures("val", "the byte, zero-padded", id == TypeID{v})
		ensures("val", "converts back", Uint8FromTypeID(id) == v)
	}
}
func contractv_TypeIDFromUint32(v uint32, bo binary.ByteOrder) func(id TypeID) {
	requires(isOrder(bo))
	return func(id TypeID) {
		ensures("val", "the four bytes in that order, zero-padded", id == tidOf(seqSlice(spec32(v, bo))))
		ensures("val", "converts back", Uint32FromTypeID(id, bo) == v)
	}
}
func contractv_TypeIDFromUvarint32(v uint32) func(id TypeID) {
	return func(id TypeID) {
		ensures("val", "the varint, zero-padded", id == tidOf(seqSlice(specUvarint(uint64(v)))))
		ensures("val", "converts back", Uvarint32FromTypeID(id) == v)
	}
}
func contractv_Uint8FromTypeID(vid TypeID) func(out uint8) {
	return func(out uint8) { ensures("val", "the first byte", out == vid[0]) }
}
func contractv_Uint32FromTypeID(vid TypeID, order binary.ByteOrder) func(out uint32) {
	requires(isOrder(order))
	return func(out uint32) { ensures("val", "the first four bytes in that order", out == get32(vid[:], 0, order)) }
}
func contractv_Uvarint32FromTypeID(vid TypeID) func(out uint32) {
	return func(out uint32) {
		u, n := readUvarint(vid[:])
		if n > 0 {
			ensures("val", "the varint in the id", out == uint32(u))
		}
	}
}
func contractv_TypeID_Uvarint32(vid TypeID) func(out uint32) {
	return func(out uint32) { ensures("val", "as the function", out == Uvarint32FromTypeID(vid)) }
}
func contractv_TypeID_Uint32(vid TypeID) func(out uint32) {
	return func(out uint32) {
		ensures("val", "the first four bytes, little endian", out == get32(vid[:], 0, binary.LittleEndian))
	}
}
func contractv_TypeID_Uint8(vid TypeID) func(out uint8) {
	return func(out uint8) { ensures("val", "the first byte", out == vid[0]) }
}
func contractv_TypeID_Bytes(vid TypeID) func(out []byte) {
	return func(out []byte) { ensuresSeq("val", "its eight bytes", seqOf(out), seqOf(vid[:])) }
}
func contractv_TypeID_Equal(vid TypeID, b []byte) func(eq bool) {
	return func(eq bool) {
		ensures("val", "equal exactly to its eight bytes", eq == (len(b) == 8 && tidOf(b) == vid))
	}
}

// ---- sighashes

func specSighash(namespace, name string) Seq {
	sum := sha256.Sum256([]byte(namespace + ":" + name))
	return seqOf(sum[:8])
}
func contractv_Sighash(namespace string, name string) func(out []byte) {
	return func(out []byte) {
		ensuresSeq("val", "first eight bytes of sha256(namespace:name)", seqOf(out), specSighash(namespace, name))
	}
}
func contractv_SighashTypeID(namespace string, name string) func(out TypeID) {
	return func(out TypeID) {
		ensures("val", "holds the sighash", out == tidOf(seqSlice(specSighash(namespace, name))))
	}
}

// what the case conversions return is not specified here: they are some functions of the string (see heck.go)
func opaque_heckSnake(s string) Seq  { return seqStr(ToRustSnakeCase(s)) }
func opaque_heckPascal(s string) Seq { return seqStr(ToPascalCase(s)) }
func sighashOf(namespace string, name Seq) Seq {
	sum := sha256.Sum256(seqSlice(cat(seqStr(namespace), seqB(':'), name)))
	return seqOf(sum[:8])
}
func contractv_ToSnakeForSighash(s string) func(out string) {
	return func(out string) { ensuresString("val", "the snake-case name", out, opaque_heckSnake(s)) }
}
func contractv_SighashInstruction(name string) func(out []byte) {
	return func(out []byte) {
		ensuresSeq("val", "the sighash of global and the snake-case name", seqOf(out), sighashOf("global", opaque_heckSnake(name)))
	}
}
func contractv_SighashAccount(name string) func(out []byte) {
	return func(out []byte) {
		ensuresSeq("val", "the sighash of account and the pascal-case name", seqOf(out), sighashOf("account", opaque_heckPascal(name)))
	}
}

// ---- the counting writer
func contractv_byteCounter_Write(c *byteCounter, p []byte) func(n int, err error) {
	requires(c != nil)
	modifies(c)
	old := c.count
	return func(n int, err error) {
		ensures("acct", "counts every byte", c.count == old+uint64(len(p)))
		ensures("acct", "accepts every byte", n == len(p) && err == nil)
	}
}
