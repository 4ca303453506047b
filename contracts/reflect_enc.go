package bin

import (
	"encoding/binary"
	"math"
	"reflect"
	"sort"
	"strings"
)

// partPost: on success exactly want was appended; on failure, and in any case, the accounting holds.
func partPost(e *Encoder, s wsnap, err error, want Seq) {
	if err == nil {
		ensures("acct", "counts exactly the value's bytes", g_count(e) == s.c+seqLen(want))
		ensures("acct", "hands over exactly the value's bytes", handed(e) == s.h+seqLen(want))
		ensures("acct", "a writer error is reported", wfailed(e) == s.f)
		ensuresOut("out", "emits exactly the value's bytes", e, cat(s.out, want))
		return
	}
	ensures("acct", "written count equals the bytes handed to the writer", g_count(e) == s.c+(handed(e)-s.h))
}

// sizeOK: a length a slice can have; nothing is promised for a sizeof field that says otherwise.
func sizeOK(l int) bool { return 0 <= l && l < 1<<45 }

// specUints: l unsigned integers of w bytes each, back to back.
func specUints(rv reflect.Value, l int, w int, order binary.ByteOrder) Seq {
	var s Seq
	for i := 0; i < l; i++ {
		switch w {
		case 1:
			s = cat(s, seqB(byte(rv.Index(i).Uint())))
		case 2:
			s = cat(s, spec16(uint16(rv.Index(i).Uint()), order))
		case 4:
			s = cat(s, spec32(uint32(rv.Index(i).Uint()), order))
		case 8:
			s = cat(s, spec64(rv.Index(i).Uint(), order))
		}
	}
	return s
}

// opaque_uints stands for specUints where its shape does not matter.
func opaque_uints(rv reflect.Value, l int, w int, be bool) Seq { return nil }
func unfold_uints(rv reflect.Value, l int, w int, be bool) Seq {
	if be {
		return specUints(rv, l, w, binary.BigEndian)
	}
	return specUints(rv, l, w, binary.LittleEndian)
}
func uintsPost(e *Encoder, s wsnap, err error, rv reflect.Value, l int, w int, order binary.ByteOrder) {
	if err != nil {
		partPost(e, s, err, nil)
		return
	}
	if !sizeOK(l) {
		anyPost(e, s, err)
		return
	}
	if !verifying() {
		partPost(e, s, err, opaque_uints(rv, l, w, w > 1 && isBE(order)))
		return
	}
	partPost(e, s, err, specUints(rv, l, w, order))
}
func contract_reflect_writeArrayOfBytes(e *Encoder, l int, rv reflect.Value) func(err error) {
	requires(encOK(e))
	mayPanic()
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { uintsPost(e, s, err, rv, l, 1, binary.LittleEndian) }
}
func contract_reflect_writeArrayOfUint16(e *Encoder, l int, rv reflect.Value, order binary.ByteOrder) func(err error) {
	requires(encOK(e))
	requires(order != nil)
	mayPanic()
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { uintsPost(e, s, err, rv, l, 2, order) }
}
func contract_reflect_writeArrayOfUint32(e *Encoder, l int, rv reflect.Value, order binary.ByteOrder) func(err error) {
	requires(encOK(e))
	requires(order != nil)
	mayPanic()
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { uintsPost(e, s, err, rv, l, 4, order) }
}
func contract_reflect_writeArrayOfUint64(e *Encoder, l int, rv reflect.Value, order binary.ByteOrder) func(err error) {
	requires(encOK(e))
	requires(order != nil)
	mayPanic()
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) { uintsPost(e, s, err, rv, l, 8, order) }
}

func contract_reflect_writeArrayOfUint_(e *Encoder, l int, k reflect.Kind, rv reflect.Value, order binary.ByteOrder) func(err error) {
	requires(encOK(e))
	requires(order != nil)
	mayPanic()
	modifies(g_countp(e))
	modifiesOut(e)
	s := snapW(e)
	return func(err error) {
		w := kindWidth(k)
		ensures("out", "writes only the unsigned integers it knows", w > 0 || err != nil)
		uintsPost(e, s, err, rv, l, w, order)
	}
}
func kindWidth(k reflect.Kind) int {
	switch k {
	case reflect.Uint8:
		return 1
	case reflect.Uint16:
		return 2
	case reflect.Uint32:
		return 4
	case reflect.Uint64:
		return 8
	}
	return 0
}

// ---------------------------------------------------------------- the interpreter of Go values

// eopts are the options a value is encoded under.
type eopts struct {
	opt, copt bool
	order     binary.ByteOrder
	has       bool
	size      int
}

func optsOf(o *g_option) eopts {
	if o == nil {
		return eopts{order: binary.LittleEndian}
	}
	r := eopts{opt: g_optO(o), copt: g_optC(o), order: g_optOrder(o)}
	if p := g_optSize(o); p != nil {
		r.has = true
		r.size = *p
	}
	return r
}

// The encoding of a value, of a struct's fields, and of a value by its own marshaler; and what a struct tag says.
func opaque_enc(enc Encoding, rv reflect.Value, opt, copt bool, order binary.ByteOrder, has bool, size int) Seq {
	return nil
}
func opaque_encStruct(enc Encoding, rv reflect.Value) Seq      { return nil }
func opaque_marsh(rv reflect.Value, enc Encoding, be bool) Seq { return nil }
func opaque_tagSkip(tag reflect.StructTag) bool                { return false }
func opaque_tagOption(tag reflect.StructTag) bool              { return false }
func opaque_tagCOption(tag reflect.StructTag) bool             { return false }
func opaque_tagExt(tag reflect.StructTag) bool                 { return false }
func opaque_tagEnum(tag reflect.StructTag) bool                { return false }
func opaque_tagBE(tag reflect.StructTag) bool                  { return false }
func opaque_tagSizeOf(tag reflect.StructTag) string            { return "" }

func encElem(enc Encoding, rv reflect.Value) Seq {
	return opaque_enc(enc, rv, false, false, binary.LittleEndian, false, 0)
}

// unfoldEnc is the defining equation of opaque_enc.
func unfoldEnc(enc Encoding, rv reflect.Value, o eopts) Seq {
	var pre Seq
	if o.opt {
		some := !rv.IsZero()
		switch enc {
		case EncodingBin:
			pre = spec32(b2u32(some), binary.LittleEndian)
		default:
			pre = specBool(some)
		}
		if !some {
			return pre
		}
	}
	if o.copt && enc == EncodingBorsh {
		some := !rv.IsZero()
		pre = cat(pre, spec32(b2u32(some), binary.LittleEndian))
		if !some {
			return pre
		}
	}
	return cat(pre, unfoldBody(enc, rv, o))
}
func b2u32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func intOrder(enc Encoding, o eopts) binary.ByteOrder {
	if enc == EncodingBorsh {
		return binary.LittleEndian
	}
	return o.order
}
func unfoldBody(enc Encoding, rv reflect.Value, o eopts) Seq {
	if rv.Kind() == reflect.Invalid {
		return nil
	}
	if _, ok := rv.Interface().(BinaryMarshaler); ok {
		if enc == EncodingBorsh && rv.Kind() == reflect.Ptr && rv.IsZero() {
			return nil
		}
		return opaque_marsh(rv, enc, isBE(o.order))
	}
	ord := intOrder(enc, o)
	switch rv.Kind() {
	case reflect.String:
		if enc == EncodingBin {
			return cat(spec64(uint64(len(rv.String())), binary.LittleEndian), seqStr(rv.String()))
		}
		return cat(specLen(enc, len(rv.String())), seqStr(rv.String()))
	case reflect.Bool:
		return specBool(rv.Bool())
	case reflect.Uint8:
		return seqB(byte(rv.Uint()))
	case reflect.Int8:
		return seqB(byte(rv.Int()))
	case reflect.Uint16:
		return spec16(uint16(rv.Uint()), ord)
	case reflect.Int16:
		return spec16(uint16(rv.Int()), ord)
	case reflect.Uint32:
		return spec32(uint32(rv.Uint()), ord)
	case reflect.Int32:
		return spec32(uint32(rv.Int()), ord)
	case reflect.Uint64:
		return spec64(rv.Uint(), ord)
	case reflect.Int64:
		return spec64(uint64(rv.Int()), ord)
	case reflect.Float32:
		return spec32(math.Float32bits(float32(rv.Float())), ord)
	case reflect.Float64:
		return spec64(math.Float64bits(rv.Float()), ord)
	case reflect.Ptr:
		if enc == EncodingBorsh && rv.IsNil() {
			return opaque_enc(enc, reflect.New(rv.Type().Elem()).Elem(), false, false, o.order, o.has, o.size)
		}
		return opaque_enc(enc, rv.Elem(), false, o.copt && enc != EncodingBorsh, o.order, o.has, o.size)
	case reflect.Interface:
		return nil
	case reflect.Array:
		return specElems(enc, rv, rv.Type().Len())
	case reflect.Slice:
		if o.has {
			return specElems(enc, rv, o.size)
		}
		return cat(specLen(enc, rv.Len()), specElems(enc, rv, rv.Len()))
	case reflect.Struct:
		return opaque_encStruct(enc, rv)
	case reflect.Map:
		keys := rv.MapKeys()
		if enc == EncodingBorsh {
			sort.Slice(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
		}
		s := specLen(enc, rv.Len())
		for i := 0; i < rv.Len(); i++ {
			s = cat(s, encElem(enc, reflect.ValueOf(keys[i].Interface())), encElem(enc, reflect.ValueOf(rv.MapIndex(keys[i]).Interface())))
		}
		return s
	}
	return nil
}

// specElems: n elements back to back; unsigned integers are little-endian whatever the options say.
func specElems(enc Encoding, rv reflect.Value, n int) Seq {
	if w := kindWidth(rv.Type().Elem().Kind()); w > 0 {
		return opaque_uints(rv, n, w, false)
	}
	var s Seq
	for i := 0; i < n; i++ {
		s = cat(s, encElem(enc, rv.Index(i)))
	}
	return s
}

// keyLess is the order of map keys in Borsh.
func keyLess(a, b reflect.Value) bool {
	if a.Kind() == reflect.Interface {
		a, b = a.Elem(), b.Elem()
	}
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.String:
		return a.String() < b.String()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	}
	return false
}

// encodable: kinds the interpreter accepts when the value has no marshaler of its own.
func encodable(k reflect.Kind) bool {
	switch k {
	case reflect.Invalid, reflect.Bool, reflect.String, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64,
		reflect.Ptr, reflect.Interface, reflect.Array, reflect.Slice, reflect.Struct, reflect.Map:
		return true
	}
	return false
}

// describable: the lengths involved can be expressed; nothing is promised otherwise.
func describable(enc Encoding, rv reflect.Value, o eopts) bool {
	if o.has && !sizeOK(o.size) {
		return false
	}
	switch rv.Kind() {
	case reflect.Slice, reflect.Map:
		return enc == EncodingCompactU16 || lenOK(enc, rv.Len())
	case reflect.String:
		return enc != EncodingBorsh || lenOK(enc, len(rv.String()))
	}
	return true
}

func encodePost(e *Encoder, s wsnap, err error, enc Encoding, rv reflect.Value, o eopts) {
	if !verifying() {
		partPost(e, s, err, opaque_enc(enc, rv, o.opt, o.copt, o.order, o.has, o.size))
		return
	}
	if err != nil {
		partPost(e, s, err, nil)
		return
	}
	if !describable(enc, rv, o) {
		anyPost(e, s, err)
		return
	}
	partPost(e, s, err, unfoldEnc(enc, rv, o))
	if !encodable(rv.Kind()) {
		_, m := rv.Interface().(BinaryMarshaler)
		ensures("out", "refuses kinds that have no encoding", m || (o.opt || o.copt) && rv.IsZero())
	}
}
func encodePre(e *Encoder, opt *g_option, enc Encoding) {
	requires(encOK(e) && g_eenc(e) == enc)
	requires(opt == nil || g_optOrder(opt) != nil)
	mayPanic()
	modifies(g_countp(e), g_eoptp(e))
	if opt != nil {
		modifies(g_optOp(opt), g_optCp(opt))
	}
	modifiesOut(e)
}
func contract_Encoder_encodeBin(e *Encoder, rv reflect.Value, opt *g_option) func(err error) {
	encodePre(e, opt, EncodingBin)
	s, o := snapW(e), optsOf(opt)
	return func(err error) { encodePost(e, s, err, EncodingBin, rv, o) }
}
func contract_Encoder_encodeCompactU16(e *Encoder, rv reflect.Value, opt *g_option) func(err error) {
	encodePre(e, opt, EncodingCompactU16)
	s, o := snapW(e), optsOf(opt)
	return func(err error) { encodePost(e, s, err, EncodingCompactU16, rv, o) }
}
func contract_Encoder_encodeBorsh(e *Encoder, rv reflect.Value, opt *g_option) func(err error) {
	encodePre(e, opt, EncodingBorsh)
	s, o := snapW(e), optsOf(opt)
	return func(err error) { encodePost(e, s, err, EncodingBorsh, rv, o) }
}
func contract_Encoder_Encode(e *Encoder, v interface{}) func(err error) {
	requires(encOK(e))
	mayPanic()
	modifies(g_countp(e), g_eoptp(e))
	modifiesOut(e)
	s, enc := snapW(e), g_eenc(e)
	return func(err error) { partPost(e, s, err, encElem(enc, reflect.ValueOf(v))) }
}
func structPre(e *Encoder, rt reflect.Type, rv reflect.Value, enc Encoding) {
	requires(encOK(e) && g_eenc(e) == enc)
	requires(rt == rv.Type())
	mayPanic()
	modifies(g_countp(e), g_eoptp(e))
	modifiesOut(e)
}
func structPost(e *Encoder, s wsnap, err error, enc Encoding, rv reflect.Value) {
	if !verifying() {
		partPost(e, s, err, opaque_encStruct(enc, rv))
		return
	}
	if err != nil {
		partPost(e, s, err, nil)
		return
	}
	partPost(e, s, err, unfoldStruct(enc, rv))
}
func unfoldStruct(enc Encoding, rv reflect.Value) Seq {
	rt := rv.Type()
	if enc == EncodingBorsh && rt.NumField() > 0 {
		f := rt.Field(0)
		if isTypeBorshEnum(f.Type) && opaque_tagEnum(f.Tag) {
			n := byte(rv.Field(0).Uint())
			return cat(seqB(n), encElem(enc, rv.Field(int(n)+1)))
		}
	}
	var s Seq
	sizes := map[string]int{}
	for i := 0; i < rt.NumField(); i++ {
		f := rt.Field(i)
		v := rv.Field(i)
		if opaque_tagSkip(f.Tag) || !v.CanInterface() {
			continue
		}
		if opaque_tagSizeOf(f.Tag) != "" {
			sizes[opaque_tagSizeOf(f.Tag)] = opaque_sizeof(f.Type, v)
		}
		n, ok := sizes[f.Name]
		s = cat(s, opaque_enc(enc, v, opaque_tagOption(f.Tag), opaque_tagCOption(f.Tag) && enc == EncodingBorsh, tagOrder(f.Tag), ok, n))
	}
	return s
}
func tagOrder(t reflect.StructTag) binary.ByteOrder {
	if opaque_tagBE(t) {
		return binary.BigEndian
	}
	return binary.LittleEndian
}
func opaque_sizeof(t reflect.Type, v reflect.Value) int { return 0 }
func unfold_sizeof(t reflect.Type, v reflect.Value) int { return specSizeof(t, v) }
func specSizeof(t reflect.Type, v reflect.Value) int {
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int(v.Int())
	}
	if n := int(v.Uint()); n >= 0 {
		return n
	}
	return 0
}
func contract_sizeof(t reflect.Type, v reflect.Value) func(n int) {
	mayPanic()
	return func(n int) {
		if !verifying() {
			ensures("val", "the value of the size field", n == opaque_sizeof(t, v))
			return
		}
		ensures("val", "the value of the size field", n == specSizeof(t, v))
	}
}
func contract_Encoder_encodeStructBin(e *Encoder, rt reflect.Type, rv reflect.Value) func(err error) {
	structPre(e, rt, rv, EncodingBin)
	s := snapW(e)
	return func(err error) { structPost(e, s, err, EncodingBin, rv) }
}
func contract_Encoder_encodeStructCompactU16(e *Encoder, rt reflect.Type, rv reflect.Value) func(err error) {
	structPre(e, rt, rv, EncodingCompactU16)
	s := snapW(e)
	return func(err error) { structPost(e, s, err, EncodingCompactU16, rv) }
}
func contract_Encoder_encodeStructBorsh(e *Encoder, rt reflect.Type, rv reflect.Value) func(err error) {
	structPre(e, rt, rv, EncodingBorsh)
	s := snapW(e)
	return func(err error) { structPost(e, s, err, EncodingBorsh, rv) }
}

// What a field's tags say: the words of its bin tag, and the borsh_skip and borsh_enum tags.
func words(tag reflect.StructTag) []string { return strings.Split(tag.Get("bin"), " ") }
func specTagSkip(tag reflect.StructTag) bool {
	r := false
	for _, w := range words(tag) {
		if w == "-" || w == "skip" {
			r = true
		}
	}
	return r || strings.TrimSpace(tag.Get("borsh_skip")) == "true"
}
func specTagOption(tag reflect.StructTag) bool {
	r := false
	for _, w := range words(tag) {
		if w == "optional" || w == "option" {
			r = true
		}
	}
	return r
}
func specTagCOption(tag reflect.StructTag) bool {
	r := false
	for _, w := range words(tag) {
		if w == "coption" {
			r = true
		}
	}
	return r
}
func specTagExt(tag reflect.StructTag) bool {
	r := false
	for _, w := range words(tag) {
		if w == "binary_extension" {
			r = true
		}
	}
	return r
}
func specTagEnum(tag reflect.StructTag) bool {
	r := false
	for _, w := range words(tag) {
		if w == "enum" {
			r = true
		}
	}
	return r || strings.TrimSpace(tag.Get("borsh_enum")) == "true"
}
func specTagBE(tag reflect.StructTag) bool {
	r := false
	for _, w := range words(tag) {
		if w == "big" {
			r = true
		}
		if w == "little" {
			r = false
		}
	}
	return r
}
func specTagSizeOf(tag reflect.StructTag) string {
	r := ""
	for _, w := range words(tag) {
		if strings.HasPrefix(w, "sizeof=") {
			r = w[7:]
		}
	}
	return r
}
func contract_parseFieldTag(tag reflect.StructTag) func(t *fieldTag) {
	return func(t *fieldTag) {
		ensures("val", "a result", t != nil)
		ensures("val", "has an order", t.Order != nil)
		if verifying() {
			ensures("val", "skip", t.Skip == specTagSkip(tag))
			ensures("val", "option", t.Option == specTagOption(tag))
			ensures("val", "coption", t.COption == specTagCOption(tag))
			ensures("val", "extension", t.BinaryExtension == specTagExt(tag))
			ensures("val", "enum", t.IsBorshEnum == specTagEnum(tag))
			ensures("val", "sizeof", t.SizeOf == specTagSizeOf(tag))
			ensures("val", "order", isBE(t.Order) == specTagBE(tag))
			return
		}
		ensures("val", "skip", t.Skip == opaque_tagSkip(tag))
		ensures("val", "option", t.Option == opaque_tagOption(tag))
		ensures("val", "coption", t.COption == opaque_tagCOption(tag))
		ensures("val", "extension", t.BinaryExtension == opaque_tagExt(tag))
		ensures("val", "enum", t.IsBorshEnum == opaque_tagEnum(tag))
		ensures("val", "sizeof", t.SizeOf == opaque_tagSizeOf(tag))
		ensures("val", "order", isBE(t.Order) == opaque_tagBE(tag))
	}
}

// ---- the Marshal and ByteCount functions
func marshalPost(b []byte, err error, enc Encoding, v interface{}) {
	if err == nil {
		ensuresSeq("out", "returns exactly the value's encoding", seqOf(b), encElem(enc, reflect.ValueOf(v)))
	}
}
func contractv_MarshalBin(v interface{}) func(b []byte, err error) {
	mayPanic()
	return func(b []byte, err error) { marshalPost(b, err, EncodingBin, v) }
}
func contractv_MarshalBorsh(v interface{}) func(b []byte, err error) {
	mayPanic()
	return func(b []byte, err error) { marshalPost(b, err, EncodingBorsh, v) }
}
func contractv_MarshalCompactU16(v interface{}) func(b []byte, err error) {
	mayPanic()
	return func(b []byte, err error) { marshalPost(b, err, EncodingCompactU16, v) }
}
func countPost(n uint64, err error, enc Encoding, v interface{}) {
	if err == nil {
		ensures("acct", "returns the length of the value's encoding", n == uint64(seqLen(encElem(enc, reflect.ValueOf(v)))))
	}
}
func contract_BinByteCount(v interface{}) func(n uint64, err error) {
	mayPanic()
	return func(n uint64, err error) { countPost(n, err, EncodingBin, v) }
}
func contract_BorshByteCount(v interface{}) func(n uint64, err error) {
	mayPanic()
	return func(n uint64, err error) { countPost(n, err, EncodingBorsh, v) }
}
func contract_CompactU16ByteCount(v interface{}) func(n uint64, err error) {
	mayPanic()
	return func(n uint64, err error) { countPost(n, err, EncodingCompactU16, v) }
}
func contractv_MustBinByteCount(v interface{}) func(n uint64) {
	mayPanic()
	return func(n uint64) { countPost(n, nil, EncodingBin, v) }
}
func contractv_MustBorshByteCount(v interface{}) func(n uint64) {
	mayPanic()
	return func(n uint64) { countPost(n, nil, EncodingBorsh, v) }
}
func contractv_MustCompactU16ByteCount(v interface{}) func(n uint64) {
	mayPanic()
	return func(n uint64) { countPost(n, nil, EncodingCompactU16, v) }
}

// lemmaKeyOrder: the order of integer and bool map keys is a strict order that tells different keys apart, so sorting by
// it has one result (for strings and floats this is Go's own < operator).
func lemmaKeyOrder(a, b, c reflect.Value) {}
func contract_lemmaKeyOrder(a, b, c reflect.Value) func() {
	k := a.Kind()
	requires(k == b.Kind() && k == c.Kind())
	requires(k == reflect.Bool || k >= reflect.Int && k <= reflect.Uint64)
	return func() {
		ensures("val", "irreflexive", !keyLess(a, a))
		ensures("val", "asymmetric", !(keyLess(a, b) && keyLess(b, a)))
		ensures("val", "transitive", implies(keyLess(a, b) && keyLess(b, c), keyLess(a, c)))
		if !keyLess(a, b) && !keyLess(b, a) {
			switch {
			case k == reflect.Bool:
				ensures("val", "equal when neither is less", a.Bool() == b.Bool())
			case k <= reflect.Int64:
				ensures("val", "equal when neither is less", a.Int() == b.Int())
			default:
				ensures("val", "equal when neither is less", a.Uint() == b.Uint())
			}
		}
	}
}
