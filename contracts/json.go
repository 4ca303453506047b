package bin

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// ---- JSON forms: decimals, quoted beyond 32 bits

func specJSONi64(v int64) Seq {
	d := seqStr(strconv.FormatInt(v, 10))
	return iteSeq(v > 0xffffffff || v < -0xffffffff, cat(seqB('"'), d, seqB('"')), d)
}
func specJSONu64(v uint64) Seq {
	d := seqStr(strconv.FormatUint(v, 10))
	return iteSeq(v > 0xffffffff, cat(seqB('"'), d, seqB('"')), d)
}

// what JSON text means for these types: a string (text starting with a quote) holding a decimal, or a bare number
func jsonI64(data []byte) (v int64, ok bool) {
	if len(data) == 0 {
		return 0, false
	}
	if data[0] == '"' {
		var s string
		if json.Unmarshal(data, &s) != nil {
			return 0, false
		}
		n, err := strconv.ParseInt(s, 10, 64)
		return n, err == nil
	}
	err := json.Unmarshal(data, &v)
	return v, err == nil
}
func jsonU64(data []byte) (v uint64, ok bool) {
	if len(data) == 0 {
		return 0, false
	}
	if data[0] == '"' {
		var s string
		if json.Unmarshal(data, &s) != nil {
			return 0, false
		}
		n, err := strconv.ParseUint(s, 10, 64)
		return n, err == nil
	}
	err := json.Unmarshal(data, &v)
	return v, err == nil
}
func jsonF64(data []byte) (v float64, ok bool) {
	if len(data) == 0 {
		return 0, false
	}
	if data[0] == '"' {
		var s string
		if json.Unmarshal(data, &s) != nil {
			return 0, false
		}
		n, err := strconv.ParseFloat(s, 64)
		return n, err == nil
	}
	err := json.Unmarshal(data, &v)
	return v, err == nil
}

func contractv_Int64_MarshalJSON(i Int64) func(data []byte, err error) {
	return func(data []byte, err error) {
		ensures("val", "always succeeds", err == nil)
		ensuresSeq("val", "the decimal, quoted beyond 32 bits", seqOf(data), specJSONi64(int64(i)))
	}
}
func contractv_Uint64_MarshalJSON(i Uint64) func(data []byte, err error) {
	return func(data []byte, err error) {
		ensures("val", "always succeeds", err == nil)
		ensuresSeq("val", "the decimal, quoted beyond 32 bits", seqOf(data), specJSONu64(uint64(i)))
	}
}
func contractv_Int64_UnmarshalJSON(i *Int64, data []byte) func(err error) {
	requires(i != nil)
	modifies(i)
	old := *i
	v, ok := jsonI64(data)
	return func(err error) {
		ensures("val", "fails exactly on what is not a number of this type", (err == nil) == ok)
		ensures("val", "stores the number", implies(ok, *i == Int64(v)))
		ensures("val", "leaves the target alone on failure", implies(!ok, *i == old))
	}
}
func contractv_Uint64_UnmarshalJSON(i *Uint64, data []byte) func(err error) {
	requires(i != nil)
	modifies(i)
	old := *i
	v, ok := jsonU64(data)
	return func(err error) {
		ensures("val", "fails exactly on what is not a number of this type", (err == nil) == ok)
		ensures("val", "stores the number", implies(ok, *i == Uint64(v)))
		ensures("val", "leaves the target alone on failure", implies(!ok, *i == old))
	}
}
func contractv_JSONFloat64_UnmarshalJSON(f *JSONFloat64, data []byte) func(err error) {
	requires(f != nil)
	modifies(f)
	v, ok := jsonF64(data)
	b := math.Float64bits(v)
	return func(err error) {
		ensures("val", "fails exactly on what is not a number of this type", (err == nil) == ok)
		ensures("val", "stores the number", implies(ok, math.Float64bits(float64(*f)) == b))
	}
}
func contractv_Bool_UnmarshalJSON(b *Bool, data []byte) func(err error) {
	requires(b != nil)
	modifies(b)
	old := *b
	var n int
	errN := json.Unmarshal(data, &n)
	var t bool
	errT := json.Unmarshal(data, &t)
	return func(err error) {
		ensures("val", "accepts integers and booleans only", (err == nil) == (errN == nil || errT == nil))
		ensures("val", "an integer is true unless zero", implies(errN == nil, bool(*b) == (n != 0)))
		ensures("val", "a boolean is itself", implies(errN != nil && errT == nil, bool(*b) == t))
		ensures("val", "leaves the target alone on failure", implies(err != nil, *b == old))
	}
}

// ---- hex bytes

func contractv_HexBytes_MarshalJSON(t HexBytes) func(data []byte, err error) {
	return func(data []byte, err error) {
		ensures("val", "always succeeds", err == nil)
		ensuresSeq("val", "the quoted hex digits", seqOf(data), cat(seqB('"'), seqStr(hex.EncodeToString(t)), seqB('"')))
	}
}
func contractv_HexBytes_UnmarshalJSON(t *HexBytes, data []byte) func(err error) {
	requires(t != nil)
	modifies(t)
	var s string
	ok := json.Unmarshal(data, &s) == nil
	b, herr := hex.DecodeString(s)
	return func(err error) {
		ensures("val", "accepts exactly strings of hex digit pairs", (err == nil) == (ok && herr == nil))
		if err == nil {
			ensuresSeq("val", "stores the bytes the digits denote", seqOf(*t), seqOf(b))
		}
	}
}

// ---- 128-bit integers

// jsonU128 is the number JSON text denotes: a string of 0x and 32 hex digits (bytes in the given order), or of a decimal.
func jsonU128(data []byte, be bool) (hi, lo uint64, ok bool) {
	var s string
	if json.Unmarshal(data, &s) != nil {
		return 0, 0, false
	}
	if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
		if len(s) != 34 {
			return 0, 0, false
		}
		b, err := hex.DecodeString(s[2:])
		if err != nil {
			return 0, 0, false
		}
		if be {
			hi, lo = get128(b, 0, binary.BigEndian)
		} else {
			hi, lo = get128(b, 0, binary.LittleEndian)
		}
		return hi, lo, true
	}
	v, good := new(big.Int).SetString(s, 0)
	if !good {
		return 0, 0, false
	}
	hi, lo = new(big.Int).Rsh(v, 64).Uint64(), v.Uint64()
	return hi, lo, v.Cmp(big128(hi, lo)) == 0
}
func isNull(data []byte) bool { return string(data) == "null" }

func contractv_Uint128_MarshalJSON(i Uint128) func(data []byte, err error) {
	requires(ownOrderOK(i.Endianness))
	return func(data []byte, err error) {
		ensures("val", "always succeeds", err == nil)
		ensuresSeq("val", "the quoted decimal", seqOf(data), cat(seqB('"'), seqStr(big128(i.Hi, i.Lo).String()), seqB('"')))
	}
}
func contractv_Int128_MarshalJSON(i Int128) func(data []byte, err error) {
	requires(ownOrderOK(i.Endianness))
	return func(data []byte, err error) {
		ensures("val", "always succeeds", err == nil)
		ensuresSeq("val", "the quoted decimal", seqOf(data), cat(seqB('"'), seqStr(big128(i.Hi, i.Lo).String()), seqB('"')))
	}
}
func contractv_Float128_MarshalJSON(i Float128) func(data []byte, err error) {
	requires(ownOrderOK(i.Endianness))
	return func(data []byte, err error) {
		ensures("val", "always succeeds", err == nil)
		ensuresSeq("val", "the quoted decimal", seqOf(data), cat(seqB('"'), seqStr(big128(i.Hi, i.Lo).String()), seqB('"')))
	}
}
func contractv_Uint128_UnmarshalJSON(i *Uint128, data []byte) func(err error) {
	requires(i != nil && ownOrderOK(i.Endianness))
	modifies(i)
	old := *i
	null := isNull(data)
	hi, lo, ok := jsonU128(data, isBE(orderOr(nil, i.Endianness)))
	return func(err error) {
		ensures("val", "accepts exactly null and numbers below 2^128", (err == nil) == (null || ok))
		ensures("val", "stores the number", implies(ok && !null, i.Hi == hi && i.Lo == lo))
		ensures("val", "leaves the target alone on null and on failure", implies(null || !ok, i.Hi == old.Hi && i.Lo == old.Lo))
		ensures("val", "leaves the order tag alone", i.Endianness == old.Endianness)
	}
}
func contractv_Int128_UnmarshalJSON(i *Int128, data []byte) func(err error) {
	requires(i != nil && ownOrderOK(i.Endianness))
	modifies(i)
	old := *i
	var u Uint128
	ok := json.Unmarshal(data, &u) == nil
	return func(err error) {
		ensures("val", "accepts exactly what an unsigned value accepts", (err == nil) == ok)
		ensures("val", "stores the number", implies(ok, i.Hi == u.Hi && i.Lo == u.Lo))
		ensures("val", "leaves the target alone on failure", implies(!ok, i.Hi == old.Hi && i.Lo == old.Lo))
	}
}
func contractv_Float128_UnmarshalJSON(i *Float128, data []byte) func(err error) {
	requires(i != nil && ownOrderOK(i.Endianness))
	modifies(i)
	old := *i
	var u Uint128
	ok := json.Unmarshal(data, &u) == nil
	return func(err error) {
		ensures("val", "accepts exactly what an unsigned value accepts", (err == nil) == ok)
		ensures("val", "stores the number", implies(ok, i.Hi == u.Hi && i.Lo == u.Lo))
		ensures("val", "leaves the target alone on failure", implies(!ok, i.Hi == old.Hi && i.Lo == old.Lo))
	}
}

// ---- the round trips

func lemmaJSONInt64(v Int64, w *Int64) error {
	b, err := v.MarshalJSON()
	if err != nil {
		return err
	}
	return w.UnmarshalJSON(b)
}
func contract_lemmaJSONInt64(v Int64, w *Int64) func(err error) {
	requires(w != nil)
	modifies(w)
	return func(err error) { ensures("val", "round trip", err == nil && *w == v) }
}
func lemmaJSONUint64(v Uint64, w *Uint64) error {
	b, err := v.MarshalJSON()
	if err != nil {
		return err
	}
	return w.UnmarshalJSON(b)
}
func contract_lemmaJSONUint64(v Uint64, w *Uint64) func(err error) {
	requires(w != nil)
	modifies(w)
	return func(err error) { ensures("val", "round trip", err == nil && *w == v) }
}
func lemmaJSONHexBytes(v HexBytes, w *HexBytes) error {
	b, err := v.MarshalJSON()
	if err != nil {
		return err
	}
	return w.UnmarshalJSON(b)
}
func contract_lemmaJSONHexBytes(v HexBytes, w *HexBytes) func(err error) {
	requires(w != nil)
	modifies(w)
	return func(err error) {
		ensures("val", "succeeds", err == nil)
		ensuresSeq("val", "round trip", seqOf(*w), seqOf(v))
	}
}
func lemmaJSONUint128(v Uint128, w *Uint128) error {
	b, err := v.MarshalJSON()
	if err != nil {
		return err
	}
	return w.UnmarshalJSON(b)
}
func contract_lemmaJSONUint128(v Uint128, w *Uint128) func(err error) {
	requires(w != nil && ownOrderOK(v.Endianness) && ownOrderOK(w.Endianness))
	modifies(w)
	return func(err error) { ensures("val", "round trip", err == nil && w.Hi == v.Hi && w.Lo == v.Lo) }
}
func lemmaJSONInt128(v Int128, w *Int128) error {
	b, err := v.MarshalJSON()
	if err != nil {
		return err
	}
	return w.UnmarshalJSON(b)
}
func contract_lemmaJSONInt128(v Int128, w *Int128) func(err error) {
	requires(w != nil && ownOrderOK(v.Endianness) && ownOrderOK(w.Endianness))
	modifies(w)
	return func(err error) { ensures("val", "round trip", err == nil && w.Hi == v.Hi && w.Lo == v.Lo) }
}
func lemmaJSONFloat128(v Float128, w *Float128) error {
	b, err := v.MarshalJSON()
	if err != nil {
		return err
	}
	return w.UnmarshalJSON(b)
}
func contract_lemmaJSONFloat128(v Float128, w *Float128) func(err error) {
	requires(w != nil && ownOrderOK(v.Endianness) && ownOrderOK(w.Endianness))
	modifies(w)
	return func(err error) { ensures("val", "round trip", err == nil && w.Hi == v.Hi && w.Lo == v.Lo) }
}
