package bin

import (
	"encoding/binary"
	"io"
	"math"
)

// Representation invariant of an encoder.
func encOK(e *Encoder) bool { return e != nil && g_ewriter(e) != nil && validEnc(g_eenc(e)) }

// wsnap is what an encoder's writer had seen when an operation started.
type wsnap struct {
	out Seq
	h   int
	c   int
	f   bool
}

func snapW(e *Encoder) wsnap { return wsnap{outOf(e), handed(e), g_count(e), wfailed(e)} }

// writePost: the item's bytes, all of them, in order; or the writer's own error; or (ok false) a refusal that writes nothing.
func writePost(e *Encoder, s wsnap, err error, ok bool, want Seq) {
	ensures("acct", "written count equals the bytes handed to the writer", g_count(e)-s.c == handed(e)-s.h)
	if err == nil {
		ensures("out", "accepts only what it can encode", ok)
		ensures("acct", "a writer error is reported", wfailed(e) == s.f)
		ensuresOut("out", "emits exactly the item's bytes", e, cat(s.out, want))
		ensures("acct", "hands over exactly the item's bytes", handed(e) == s.h+seqLen(want))
	} else if ok {
		ensures("out", "fails only when the writer fails", wfailed(e))
	} else {
		ensures("acct", "a refused item writes nothing", handed(e) == s.h)
		ensures("out", "a refused item leaves the writer alone", wfailed(e) == s.f)
		ensuresOut("out", "a refused item emits nothing", e, s.out)
	}
}

// anyPost is all that is promised for an item whose size the prefix cannot express.
func anyPost(e *Encoder, s wsnap, err error) {
	ensures("acct", "written count equals the bytes handed to the writer", g_count(e)-s.c == handed(e)-s.h)
	if err == nil {
		ensures("acct", "a writer error is reported", wfailed(e) == s.f)
	}
}

// lenOK: the encoding's length prefix can express n.
func lenOK(enc Encoding, n int) bool {
	switch enc {
	case EncodingBin:
		return n >= 0
	case EncodingBorsh:
		return 0 <= n && n <= math.MaxUint32
	}
	return compactOK(n)
}

func contract_Encoder_toWriter(e *Encoder, bytes []byte) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	want := seqOf(bytes)
	return func(err error) { writePost(e, s, err, true, want) }
}
func contract_Encoder_Write(e *Encoder, b []byte) func(n int, err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	want := seqOf(b)
	return func(n int, err error) {
		writePost(e, s, err, true, want)
		if err == nil {
			ensures("acct", "reports the bytes written", n == len(b))
		}
	}
}
func contract_Encoder_Written(e *Encoder) func(n int) {
	requires(encOK(e))
	return func(n int) { ensures("acct", "reports the count", n == g_count(e)) }
}
func contract_Encoder_WriteBytes(e *Encoder, b []byte, writeLength bool) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	enc := g_eenc(e)
	body := seqOf(b)
	return func(err error) {
		if !writeLength {
			writePost(e, s, err, true, body)
			return
		}
		if enc != EncodingCompactU16 && !lenOK(enc, len(b)) {
			anyPost(e, s, err)
			return
		}
		writePost(e, s, err, lenOK(enc, len(b)), cat(specLen(enc, len(b)), body))
	}
}
func contract_Encoder_WriteLength(e *Encoder, length int) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	enc := g_eenc(e)
	return func(err error) {
		if enc != EncodingCompactU16 && !lenOK(enc, length) {
			anyPost(e, s, err)
			return
		}
		writePost(e, s, err, lenOK(enc, length), specLen(enc, length))
	}
}
func contract_Encoder_WriteUVarInt(e *Encoder, v int) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) {
		if verifying() {
			writePost(e, s, err, true, specUvarint(uint64(v)))
			return
		}
		writePost(e, s, err, true, opaque_uvarint(uint64(v)))
	}
}
func contract_Encoder_WriteVarInt(e *Encoder, v int) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, specVarint(int64(v))) }
}
func contract_Encoder_WriteByte(e *Encoder, b byte) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, seqB(b)) }
}
func contract_Encoder_WriteOption(e *Encoder, b bool) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, specBool(b)) }
}
func contract_Encoder_WriteCOption(e *Encoder, b bool) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, cat(specBool(b), seqB(0, 0, 0))) }
}
func contract_Encoder_WriteBool(e *Encoder, b bool) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, specBool(b)) }
}
func contract_Encoder_WriteUint8(e *Encoder, i uint8) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, seqB(i)) }
}
func contract_Encoder_WriteInt8(e *Encoder, i int8) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, seqB(uint8(i))) }
}
func contract_Encoder_WriteUint16(e *Encoder, i uint16, order binary.ByteOrder) func(err error) {
	requires(encOK(e) && isOrder(order))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, spec16(i, order)) }
}
func contract_Encoder_WriteInt16(e *Encoder, i int16, order binary.ByteOrder) func(err error) {
	requires(encOK(e) && isOrder(order))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, spec16(uint16(i), order)) }
}
func contract_Encoder_WriteUint32(e *Encoder, i uint32, order binary.ByteOrder) func(err error) {
	requires(encOK(e) && isOrder(order))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, spec32(i, order)) }
}
func contract_Encoder_WriteInt32(e *Encoder, i int32, order binary.ByteOrder) func(err error) {
	requires(encOK(e) && isOrder(order))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, spec32(uint32(i), order)) }
}
func contract_Encoder_WriteUint64(e *Encoder, i uint64, order binary.ByteOrder) func(err error) {
	requires(encOK(e) && isOrder(order))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, spec64(i, order)) }
}
func contract_Encoder_WriteInt64(e *Encoder, i int64, order binary.ByteOrder) func(err error) {
	requires(encOK(e) && isOrder(order))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, spec64(uint64(i), order)) }
}
func contract_Encoder_WriteUint128(e *Encoder, i Uint128, order binary.ByteOrder) func(err error) {
	requires(encOK(e) && isOrder(order))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, spec128(i.Hi, i.Lo, order)) }
}
func contract_Encoder_WriteInt128(e *Encoder, i Int128, order binary.ByteOrder) func(err error) {
	requires(encOK(e) && isOrder(order))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, true, spec128(i.Hi, i.Lo, order)) }
}
func contract_Encoder_WriteFloat32(e *Encoder, f float32, order binary.ByteOrder) func(err error) {
	requires(encOK(e) && isOrder(order))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	ok := !(g_eenc(e) == EncodingBorsh && nan32(f))
	return func(err error) { writePost(e, s, err, ok, spec32(math.Float32bits(f), order)) }
}
func contract_Encoder_WriteFloat64(e *Encoder, f float64, order binary.ByteOrder) func(err error) {
	requires(encOK(e) && isOrder(order))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	ok := !(g_eenc(e) == EncodingBorsh && nan64(f))
	return func(err error) { writePost(e, s, err, ok, spec64(math.Float64bits(f), order)) }
}
func contract_Encoder_WriteString(e *Encoder, s string) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	w := snapW(e)
	enc := g_eenc(e)
	body := seqStr(s)
	return func(err error) {
		if enc != EncodingCompactU16 && !lenOK(enc, len(s)) {
			anyPost(e, w, err)
			return
		}
		writePost(e, w, err, lenOK(enc, len(s)), cat(specLen(enc, len(s)), body))
	}
}
func contract_Encoder_WriteRustString(e *Encoder, s string) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	w := snapW(e)
	body := seqStr(s)
	return func(err error) { writePost(e, w, err, true, cat(spec64(uint64(len(s)), binary.LittleEndian), body)) }
}
func contract_Encoder_WriteCompactU16(e *Encoder, ln int) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, compactOK(ln), specCompact(ln)) }
}
func contract_Encoder_WriteCompactU16Length(e *Encoder, ln int) func(err error) {
	requires(encOK(e))
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { writePost(e, s, err, compactOK(ln), specCompact(ln)) }
}
func contractv_NewEncoderWithEncoding(writer io.Writer, enc Encoding) func(e *Encoder) {
	panicsWhen(!validEnc(enc))
	return func(e *Encoder) {
		ensures("acct", "starts with nothing written", g_count(e) == 0)
		ensures("val", "has the requested encoding", e != nil && g_eenc(e) == enc)
		ensures("val", "writes to the given writer", g_ewriter(e) == writer)
		ensures("val", "starts without field options", g_eopt(e) == nil)
	}
}

// EncodeCompactU16Length appends the canonical form, or refuses and appends nothing.
func contractv_EncodeCompactU16Length(buf *[]byte, ln int) func(err error) {
	requires(buf != nil)
	modifies(buf)
	old := *buf
	pre := seqOf(old)
	return func(err error) {
		ensures("val", "succeeds exactly for 0..65535", (err == nil) == compactOK(ln))
		if err == nil {
			ensuresSeq("out", "appends the canonical form", seqOf(*buf), cat(pre, specCompact(ln)))
		} else {
			ensuresSeq("out", "appends nothing when refused", seqOf(*buf), pre)
		}
	}
}
