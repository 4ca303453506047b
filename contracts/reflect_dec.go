package bin

import (
	"encoding/binary"
	"reflect"
)

// ---------------------------------------------------------------- decoding into Go values: safety
//
// Whatever the bytes are, decoding into a target that can be written returns, with the cursor inside the input and with
// no allocation larger than the bytes that are left.

// uintsTarget: rv is an array of l, or a slice, of unsigned integers of w bytes.
func uintsTarget(rv reflect.Value, l, w int) bool {
	return rvCanSet(rv) &&
		implies(rv.Kind() == reflect.Array, rv.Type().Len() == l && kindWidth(rv.Type().Elem().Kind()) == w) &&
		implies(rv.Kind() == reflect.Slice, kindWidth(rv.Type().Elem().Kind()) == w)
}
func uintsPre(d *Decoder, l int, w int, rv reflect.Value) {
	requires(decOK(d) && 0 <= l && l < 1<<45 && l*w <= room(d) && uintsTarget(rv, l, w))
	modifies(g_posp(d))
	modifiesTarget(rv)
	allocLimit(room(d))
}
func contract_reflect_readArrayOfBytes(d *Decoder, l int, rv reflect.Value) func(err error) {
	uintsPre(d, l, 1, rv)
	p0 := g_pos(d)
	return func(err error) { uintsReadPost(d, p0, l, 1, rv, err) }
}
func contract_reflect_readArrayOfUint16(d *Decoder, l int, rv reflect.Value, order binary.ByteOrder) func(err error) {
	uintsPre(d, l, 2, rv)
	requires(isOrder(order))
	p0 := g_pos(d)
	return func(err error) { uintsReadPost(d, p0, l, 2, rv, err) }
}
func contract_reflect_readArrayOfUint32(d *Decoder, l int, rv reflect.Value, order binary.ByteOrder) func(err error) {
	uintsPre(d, l, 4, rv)
	requires(isOrder(order))
	p0 := g_pos(d)
	return func(err error) { uintsReadPost(d, p0, l, 4, rv, err) }
}
func contract_reflect_readArrayOfUint64(d *Decoder, l int, rv reflect.Value, order binary.ByteOrder) func(err error) {
	uintsPre(d, l, 8, rv)
	requires(isOrder(order))
	p0 := g_pos(d)
	return func(err error) { uintsReadPost(d, p0, l, 8, rv, err) }
}
func contract_reflect_readArrayOfUint_(d *Decoder, l int, k reflect.Kind, rv reflect.Value, order binary.ByteOrder) func(err error) {
	w := kindWidth(k)
	requires(decOK(d) && isOrder(order) && 0 <= l && l < 1<<45)
	requires(w > 0 && uintsTarget(rv, l, w))
	modifies(g_posp(d))
	modifiesTarget(rv)
	allocLimit(room(d))
	p0, r := g_pos(d), room(d)
	return func(err error) {
		ensures("val", "too few bytes is an error", implies(l*w > r, err != nil))
		uintsReadPost(d, p0, l, w, rv, err)
	}
}
func uintsReadPost(d *Decoder, p0, l, w int, rv reflect.Value, err error) {
	ensures("safe", "cursor stays inside the input", decOK(d))
	ensures("adv", "advances by exactly the items read", implies(err == nil, g_pos(d) == p0+l*w))
}

func contract_indirect(v reflect.Value, decodingNull bool) func(u BinaryUnmarshaler, x reflect.Value) {
	requires(rvUsable(v))
	modifiesTarget(v)
	return func(u BinaryUnmarshaler, x reflect.Value) {
		ensuresReach(u, x, v)
		if u == nil {
			ensures("safe", "the value can be decoded into", x.Kind() != reflect.Invalid && rvCanSet(x))
			ensures("safe", "pointers are followed", implies(!decodingNull, x.Kind() != reflect.Ptr))
		}
	}
}

// decTarget: a decoder as the constructors make them; inputs of 32 TB and more are not considered.
func decTarget(dec *Decoder) bool {
	return decOK(dec) && len(g_data(dec)) < 1<<45 && (g_denc(dec) == EncodingBin || g_denc(dec) == EncodingBorsh || g_denc(dec) == EncodingCompactU16)
}
func decodePre(dec *Decoder, rv reflect.Value, opt *g_option) {
	requires(decTarget(dec) && rvUsable(rv))
	if opt != nil {
		requires(isOrder(g_optOrder(opt)))
		requires(implies(g_optO(opt) || g_optC(opt), rvCanSet(rv)))
	}
	decodeFrame(dec, rv)
}
func decodeFrame(dec *Decoder, rv reflect.Value) {
	modifies(g_posp(dec), g_doptp(dec))
	modifiesTarget(rv)
	allocLimit(room(dec))
	invariant(func() bool { return decOK(dec) })
	abstractly("readLen")
	abstractly("rawLen")
}
func decodePost(dec *Decoder, err error) {
	ensures("safe", "cursor stays inside the input", decOK(dec))
}
func contract_Decoder_decodeBin(dec *Decoder, rv reflect.Value, opt *g_option) func(err error) {
	decodePre(dec, rv, opt)
	calleePanics()
	return func(err error) { decodePost(dec, err) }
}
func contract_Decoder_decodeBorsh(dec *Decoder, rv reflect.Value, opt *g_option) func(err error) {
	decodePre(dec, rv, opt)
	calleePanics()
	return func(err error) { decodePost(dec, err) }
}
func contract_Decoder_decodeCompactU16(dec *Decoder, rv reflect.Value, opt *g_option) func(err error) {
	decodePre(dec, rv, opt)
	calleePanics()
	return func(err error) { decodePost(dec, err) }
}

func decStructPre(dec *Decoder, rt reflect.Type, rv reflect.Value) {
	requires(decTarget(dec) && rt == rv.Type() && rv.Kind() == reflect.Struct && rvCanSet(rv))
	decodeFrame(dec, rv)
}
func contract_Decoder_decodeStructBin(dec *Decoder, rt reflect.Type, rv reflect.Value) func(err error) {
	decStructPre(dec, rt, rv)
	byDesignPanics()
	return func(err error) { decodePost(dec, err) }
}
func contract_Decoder_decodeStructBorsh(dec *Decoder, rt reflect.Type, rv reflect.Value) func(err error) {
	decStructPre(dec, rt, rv)
	byDesignPanics()
	return func(err error) { decodePost(dec, err) }
}
func contract_Decoder_decodeStructCompactU16(dec *Decoder, rt reflect.Type, rv reflect.Value) func(err error) {
	decStructPre(dec, rt, rv)
	byDesignPanics()
	return func(err error) { decodePost(dec, err) }
}
func contract_Decoder_deserializeComplexEnum(dec *Decoder, rv reflect.Value) func(err error) {
	requires(decTarget(dec) && rv.Kind() == reflect.Struct && rvCanSet(rv) && rv.Type().NumField() > 0 && isTypeBorshEnum(rv.Type().Field(0).Type))
	decodeFrame(dec, rv)
	calleePanics()
	return func(err error) { decodePost(dec, err) }
}

func goodTarget(v interface{}) bool {
	rv := reflect.ValueOf(v)
	return rv.Kind() == reflect.Ptr && !rv.IsNil()
}
func decodeTopPre(dec *Decoder, v interface{}) {
	requires(decTarget(dec))
	modifies(g_posp(dec), g_doptp(dec))
	modifiesTarget(reflect.ValueOf(v))
	allocLimit(room(dec))
	calleePanics()
}
func decodeTopPost(dec *Decoder, p0 int, good bool, err error) {
	decodePost(dec, err)
	ensures("val", "a target that is not a pointer, or nil, is an error", implies(!good, err != nil))
	ensures("adv", "nothing is read for a target that is not a pointer, or nil", implies(!good, g_pos(dec) == p0))
}
func contract_Decoder_Decode(dec *Decoder, v interface{}) func(err error) {
	decodeTopPre(dec, v)
	p0, good := g_pos(dec), goodTarget(v)
	return func(err error) {
		setGhostInt("decode.start", p0)
		decodeTopPost(dec, p0, good, err)
	}
}
func contract_Decoder_decodeWithOptionBin(dec *Decoder, v interface{}, opt *g_option) func(err error) {
	decodeTopPre(dec, v)
	requires(opt == nil)
	p0, good := g_pos(dec), goodTarget(v)
	return func(err error) { decodeTopPost(dec, p0, good, err) }
}
func contract_Decoder_decodeWithOptionBorsh(dec *Decoder, v interface{}, opt *g_option) func(err error) {
	decodeTopPre(dec, v)
	requires(opt == nil)
	p0, good := g_pos(dec), goodTarget(v)
	return func(err error) { decodeTopPost(dec, p0, good, err) }
}
func contract_Decoder_decodeWithOptionCompactU16(dec *Decoder, v interface{}, opt *g_option) func(err error) {
	decodeTopPre(dec, v)
	requires(opt == nil)
	p0, good := g_pos(dec), goodTarget(v)
	return func(err error) { decodeTopPost(dec, p0, good, err) }
}
func unmarshalPre(v interface{}, b []byte) {
	requires(len(b) < 1<<45)
	modifiesTarget(reflect.ValueOf(v))
	allocLimit(len(b))
	calleePanics()
}
func contract_UnmarshalBin(v interface{}, b []byte) func(err error) {
	unmarshalPre(v, b)
	good := goodTarget(v)
	return func(err error) {
		ensures("val", "a target that is not a pointer, or nil, is an error", implies(!good, err != nil))
	}
}
func contract_UnmarshalBorsh(v interface{}, b []byte) func(err error) {
	unmarshalPre(v, b)
	good := goodTarget(v)
	return func(err error) {
		ensures("val", "a target that is not a pointer, or nil, is an error", implies(!good, err != nil))
	}
}
func contract_UnmarshalCompactU16(v interface{}, b []byte) func(err error) {
	unmarshalPre(v, b)
	good := goodTarget(v)
	return func(err error) {
		ensures("val", "a target that is not a pointer, or nil, is an error", implies(!good, err != nil))
	}
}
