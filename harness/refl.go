package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"
	"unsafe"

	. "github.com/gagliardetto/binary"
)

// ---------------------------------------------------------------- specification of the layouts

// pat is a byte pattern: literal bytes and groups that may come in any order (map entries in Bin and CompactU16).
type pnode struct {
	b    []byte
	perm []pat
}
type pat []pnode

func lit(b []byte) pat { return pat{{b: b}} }
func (p pat) add(q pat) pat {
	return append(append(pat{}, p...), q...)
}
func (p pat) flat() ([]byte, bool) {
	var out []byte
	for _, n := range p {
		if n.perm != nil {
			if len(n.perm) > 1 {
				return nil, false
			}
			for _, q := range n.perm {
				b, ok := q.flat()
				if !ok {
					return nil, false
				}
				out = append(out, b...)
			}
			continue
		}
		out = append(out, n.b...)
	}
	return out, true
}
func (p pat) match(b []byte, k func(rest []byte) bool) bool {
	if len(p) == 0 {
		return k(b)
	}
	n := p[0]
	if n.perm == nil {
		return bytes.HasPrefix(b, n.b) && p[1:].match(b[len(n.b):], k)
	}
	return matchPerm(n.perm, b, func(r []byte) bool { return p[1:].match(r, k) })
}
func matchPerm(ps []pat, b []byte, k func([]byte) bool) bool {
	if len(ps) == 0 {
		return k(b)
	}
	for i := range ps {
		rest := append(append([]pat{}, ps[:i]...), ps[i+1:]...)
		if ps[i].match(b, func(r []byte) bool { return matchPerm(rest, r, k) }) {
			return true
		}
	}
	return false
}
func (p pat) matches(b []byte) bool { return p.match(b, func(r []byte) bool { return len(r) == 0 }) }
func (p pat) String() string {
	var s []string
	for _, n := range p {
		if n.perm == nil {
			s = append(s, hx(n.b))
			continue
		}
		var q []string
		for _, e := range n.perm {
			q = append(q, e.String())
		}
		s = append(s, "{"+strings.Join(q, " | ")+"}")
	}
	return strings.Join(s, " ")
}

// tag words, as the documentation describes them
type stag struct {
	skip, opt, copt, ext, enum bool
	order                      binary.ByteOrder
	sizeof                     string
}

func parseTag(t reflect.StructTag) stag {
	r := stag{order: binary.LittleEndian}
	for _, w := range strings.Split(t.Get("bin"), " ") {
		switch w {
		case "-", "skip":
			r.skip = true
		case "big":
			r.order = binary.BigEndian
		case "little":
			r.order = binary.LittleEndian
		case "optional", "option":
			r.opt = true
		case "coption":
			r.copt = true
		case "binary_extension":
			r.ext = true
		case "enum":
			r.enum = true
		}
		if strings.HasPrefix(w, "sizeof=") {
			r.sizeof = w[len("sizeof="):]
		}
	}
	if strings.TrimSpace(t.Get("borsh_skip")) == "true" {
		r.skip = true
	}
	if strings.TrimSpace(t.Get("borsh_enum")) == "true" {
		r.enum = true
	}
	return r
}

type sopt struct {
	order     binary.ByteOrder
	opt, copt bool
	size      *int
}

var defOpt = sopt{order: binary.LittleEndian}

func presence(enc Encoding, on bool) []byte {
	v := byte(0)
	if on {
		v = 1
	}
	if enc == EncodingBin {
		return []byte{v, 0, 0, 0}
	}
	return []byte{v}
}
func isEnum(t reflect.Type) bool {
	return t.NumField() > 0 && t.Field(0).Type == reflect.TypeOf(BorshEnum(0)) && parseTag(t.Field(0).Tag).enum
}

// ownSpec: wire form of the types that marshal themselves.
func ownSpec(enc Encoding, rv reflect.Value, order binary.ByteOrder) (b []byte, own, ok bool) {
	str := func(s []byte) ([]byte, bool, bool) {
		if !lenOK(enc, len(s)) {
			return nil, true, false
		}
		return cat(specLen(enc, len(s)), s), true, true
	}
	switch rv.Type() {
	case reflect.TypeOf(Bool(false)):
		return specBool(rv.Bool()), true, true
	case reflect.TypeOf(Varint16(0)), reflect.TypeOf(Varint32(0)):
		return specVarint(rv.Int()), true, true
	case reflect.TypeOf(Varuint16(0)), reflect.TypeOf(Varuint32(0)):
		return specUvarint(rv.Uint()), true, true
	case reflect.TypeOf(Int64(0)):
		return spec64(uint64(rv.Int()), order), true, true
	case reflect.TypeOf(Uint64(0)):
		return spec64(rv.Uint(), order), true, true
	case reflect.TypeOf(JSONFloat64(0)):
		if enc == EncodingBorsh && math.IsNaN(rv.Float()) {
			return nil, true, false
		}
		return spec64(math.Float64bits(rv.Float()), order), true, true
	case reflect.TypeOf(Uint128{}), reflect.TypeOf(Int128{}), reflect.TypeOf(Float128{}):
		return spec128(rv.FieldByName("Hi").Uint(), rv.FieldByName("Lo").Uint(), order), true, true
	case reflect.TypeOf(HexBytes{}):
		return str(rv.Bytes())
	case reflect.TypeOf(SafeString("")):
		return str([]byte(rv.String()))
	case reflect.TypeOf(cmV{}):
		s := rv.Field(1).String()
		return cat([]byte{0xC5}, cat(spec16(uint16(rv.Field(0).Uint()), binary.BigEndian), cat(spec64(uint64(len(s)), binary.LittleEndian), []byte(s)))), true, true
	case reflect.TypeOf(cmI(0)):
		return spec64(uint64(rv.Int()*3), binary.BigEndian), true, true
	case reflect.TypeOf(cmS{}):
		out := []byte{byte(rv.Len())}
		for i := 0; i < rv.Len(); i++ {
			out = append(out, spec16(uint16(rv.Index(i).Uint()), binary.BigEndian)...)
		}
		return out, true, true
	case reflect.TypeOf(cmA{}):
		return cat(spec16(uint16(rv.Index(1).Int()), binary.BigEndian), spec16(uint16(rv.Index(0).Int()), binary.LittleEndian)), true, true
	case reflect.TypeOf(&cmP{}):
		return spec32(uint32(rv.Elem().Field(0).Uint())^0x5a5a5a5a, binary.BigEndian), true, true
	}
	return nil, false, false
}
func isOwn(t reflect.Type) bool {
	if t == reflect.TypeOf(&cmP{}) {
		return true
	}
	_, own, _ := ownSpec(EncodingBin, reflect.Zero(t), binary.LittleEndian)
	return own
}
func uintKind(k reflect.Kind) bool { return k >= reflect.Uint8 && k <= reflect.Uint64 }
func specUintElem(v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Uint8:
		return []byte{byte(v.Uint())}
	case reflect.Uint16:
		return spec16(uint16(v.Uint()), binary.LittleEndian)
	case reflect.Uint32:
		return spec32(uint32(v.Uint()), binary.LittleEndian)
	}
	return spec64(v.Uint(), binary.LittleEndian)
}

// specEnc is the wire form of rv; ok=false means that encoding must report an error.
func specEnc(enc Encoding, rv reflect.Value, o sopt) (pat, bool) {
	var p pat
	if o.opt {
		if rv.IsZero() {
			return lit(presence(enc, false)), true
		}
		p = lit(presence(enc, true))
	}
	if o.copt && enc == EncodingBorsh {
		if rv.IsZero() {
			return p.add(lit([]byte{0, 0, 0, 0})), true
		}
		p = p.add(lit([]byte{1, 0, 0, 0}))
	}
	o.opt, o.copt = false, false
	q, ok := specBody(enc, rv, o)
	return p.add(q), ok
}
func specBody(enc Encoding, rv reflect.Value, o sopt) (pat, bool) {
	if rv.Kind() != reflect.Ptr || rv.Type() == reflect.TypeOf(&cmP{}) {
		if b, own, ok := ownSpec(enc, rv, o.order); own {
			return lit(b), ok
		}
	}
	order := o.order
	if enc == EncodingBorsh {
		order = binary.LittleEndian
	}
	switch rv.Kind() {
	case reflect.Ptr:
		return specEnc(enc, rv.Elem(), o)
	case reflect.Bool:
		return lit(specBool(rv.Bool())), true
	case reflect.Int8:
		return lit([]byte{byte(rv.Int())}), true
	case reflect.Uint8:
		return lit([]byte{byte(rv.Uint())}), true
	case reflect.Int16:
		return lit(spec16(uint16(rv.Int()), order)), true
	case reflect.Uint16:
		return lit(spec16(uint16(rv.Uint()), order)), true
	case reflect.Int32:
		return lit(spec32(uint32(rv.Int()), order)), true
	case reflect.Uint32:
		return lit(spec32(uint32(rv.Uint()), order)), true
	case reflect.Int64:
		return lit(spec64(uint64(rv.Int()), order)), true
	case reflect.Uint64:
		return lit(spec64(rv.Uint(), order)), true
	case reflect.Float32:
		if enc == EncodingBorsh && math.IsNaN(rv.Float()) {
			return nil, false
		}
		return lit(spec32(math.Float32bits(float32(rv.Float())), order)), true
	case reflect.Float64:
		if enc == EncodingBorsh && math.IsNaN(rv.Float()) {
			return nil, false
		}
		return lit(spec64(math.Float64bits(rv.Float()), order)), true
	case reflect.String:
		s := []byte(rv.String())
		if enc == EncodingBin {
			return lit(cat(spec64(uint64(len(s)), binary.LittleEndian), s)), true
		}
		if !lenOK(enc, len(s)) {
			return nil, false
		}
		return lit(cat(specLen(enc, len(s)), s)), true
	case reflect.Array, reflect.Slice:
		var p pat
		if rv.Kind() == reflect.Slice && o.size == nil {
			if !lenOK(enc, rv.Len()) {
				return nil, false
			}
			p = lit(specLen(enc, rv.Len()))
		}
		if uintKind(rv.Type().Elem().Kind()) {
			var out []byte
			for i := 0; i < rv.Len(); i++ {
				out = append(out, specUintElem(rv.Index(i))...)
			}
			return p.add(lit(out)), true
		}
		for i := 0; i < rv.Len(); i++ {
			q, ok := specEnc(enc, rv.Index(i), defOpt)
			if !ok {
				return nil, false
			}
			p = append(p, q...)
		}
		return p, true
	case reflect.Map:
		if !lenOK(enc, rv.Len()) {
			return nil, false
		}
		p := lit(specLen(enc, rv.Len()))
		keys := rv.MapKeys()
		if enc == EncodingBorsh {
			sort.SliceStable(keys, func(i, j int) bool { return keyLess(keys[i], keys[j]) })
		}
		var es []pat
		for _, k := range keys {
			a, ok1 := specEnc(enc, k, defOpt)
			b, ok2 := specEnc(enc, rv.MapIndex(k), defOpt)
			if !ok1 || !ok2 {
				return nil, false
			}
			es = append(es, a.add(b))
		}
		if enc == EncodingBorsh || len(es) < 2 {
			for _, e := range es {
				p = append(p, e...)
			}
			return p, true
		}
		return append(p, pnode{perm: es}), true
	case reflect.Struct:
		t := rv.Type()
		if enc == EncodingBorsh && isEnum(t) {
			n := int(rv.Field(0).Uint())
			if n+1 >= t.NumField() {
				return nil, false
			}
			q, ok := specEnc(enc, rv.Field(n+1), defOpt)
			return lit([]byte{byte(n)}).add(q), ok
		}
		var p pat
		sizes := map[string]int{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			tg := parseTag(f.Tag)
			if tg.skip || f.PkgPath != "" {
				continue
			}
			fo := sopt{order: tg.order, opt: tg.opt, copt: tg.copt}
			if s, ok := sizes[f.Name]; ok {
				fo.size = &s
			}
			q, ok := specEnc(enc, rv.Field(i), fo)
			if !ok {
				return nil, false
			}
			p = append(p, q...)
			if tg.sizeof != "" {
				sizes[tg.sizeof] = intOf(rv.Field(i))
			}
		}
		return p, true
	}
	return nil, false // unsupported kind
}
func intOf(v reflect.Value) int {
	if v.Kind() >= reflect.Uint && v.Kind() <= reflect.Uint64 {
		return int(v.Uint())
	}
	return int(v.Int())
}
func keyLess(a, b reflect.Value) bool {
	switch k := a.Kind(); {
	case k == reflect.Bool:
		return !a.Bool() && b.Bool()
	case k >= reflect.Int && k <= reflect.Int64:
		return a.Int() < b.Int()
	case k >= reflect.Uint && k <= reflect.Uint64:
		return a.Uint() < b.Uint()
	case k == reflect.Float32 || k == reflect.Float64:
		return a.Float() < b.Float()
	case k == reflect.String:
		return a.String() < b.String()
	}
	panic(failure{"harness: unordered key kind " + a.Kind().String()})
}

// same reports a difference between an encoded value and what decoding produced ("" if none).
func same(enc Encoding, w, g reflect.Value, o sopt) string {
	if (o.opt || o.copt && enc == EncodingBorsh) && w.IsZero() {
		if !g.IsZero() {
			return fmt.Sprintf("absent optional decoded as %v", show(g))
		}
		return ""
	}
	o.opt, o.copt = false, false
	diff := func() string { return fmt.Sprintf("got %s, want %s", show(g), show(w)) }
	switch w.Type() {
	case reflect.TypeOf(Uint128{}), reflect.TypeOf(Int128{}), reflect.TypeOf(Float128{}):
		if w.FieldByName("Hi").Uint() != g.FieldByName("Hi").Uint() || w.FieldByName("Lo").Uint() != g.FieldByName("Lo").Uint() {
			return diff()
		}
		return ""
	}
	switch k := w.Kind(); {
	case k == reflect.Ptr:
		if w.IsNil() || g.IsNil() {
			if w.IsNil() != g.IsNil() {
				return diff()
			}
			return ""
		}
		return same(enc, w.Elem(), g.Elem(), o)
	case k == reflect.Bool:
		if w.Bool() != g.Bool() {
			return diff()
		}
	case k >= reflect.Int && k <= reflect.Int64:
		if w.Int() != g.Int() {
			return diff()
		}
	case k >= reflect.Uint && k <= reflect.Uint64:
		if w.Uint() != g.Uint() {
			return diff()
		}
	case k == reflect.Float32 || k == reflect.Float64:
		if math.Float64bits(w.Float()) != math.Float64bits(g.Float()) {
			return diff()
		}
	case k == reflect.String:
		if w.String() != g.String() {
			return diff()
		}
	case k == reflect.Array || k == reflect.Slice:
		if w.Len() != g.Len() {
			return fmt.Sprintf("length %d, want %d", g.Len(), w.Len())
		}
		for i := 0; i < w.Len(); i++ {
			if d := same(enc, w.Index(i), g.Index(i), defOpt); d != "" {
				return fmt.Sprintf("[%d] %s", i, d)
			}
		}
	case k == reflect.Map:
		if w.Len() != g.Len() {
			return fmt.Sprintf("%d entries, want %d", g.Len(), w.Len())
		}
		for _, key := range w.MapKeys() {
			v := g.MapIndex(key)
			if !v.IsValid() {
				return fmt.Sprintf("missing key %v", key)
			}
			if d := same(enc, w.MapIndex(key), v, defOpt); d != "" {
				return fmt.Sprintf("[%v] %s", key, d)
			}
		}
	case k == reflect.Struct:
		t := w.Type()
		enum := enc == EncodingBorsh && isEnum(t)
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			tg := parseTag(f.Tag)
			if enum {
				if i > 0 && i != int(w.Field(0).Uint())+1 {
					if !g.Field(i).IsZero() {
						return fmt.Sprintf("unselected variant %s decoded as %s", f.Name, show(g.Field(i)))
					}
					continue
				}
				if d := same(enc, w.Field(i), g.Field(i), defOpt); d != "" {
					return f.Name + ": " + d
				}
				continue
			}
			if (tg.skip || f.PkgPath != "") && !isOwn(t) {
				if !g.Field(i).IsZero() {
					return fmt.Sprintf("left-out field %s changed", f.Name)
				}
				continue
			}
			fo := sopt{order: tg.order, opt: tg.opt, copt: tg.copt}
			if isOwn(t) {
				fo = defOpt
			}
			if d := same(enc, w.Field(i), g.Field(i), fo); d != "" {
				return f.Name + ": " + d
			}
		}
	}
	return ""
}
func show(v reflect.Value) (s string) {
	defer func() {
		if recover() != nil {
			s = "<" + v.Type().String() + ">"
		}
	}()
	return clip(fmt.Sprintf("%+v", v), 300)
}
func showDeep(v reflect.Value) string {
	var b strings.Builder
	dump(&b, v, 0)
	return clip(b.String(), 2500)
}
func dump(b *strings.Builder, v reflect.Value, d int) {
	if b.Len() > 2600 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dump(b, v.Elem(), d+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			fmt.Fprintf(b, "%s:", v.Type().Field(i).Name)
			dump(b, v.Field(i), d+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len() && i < 40; i++ {
			dump(b, v.Index(i), d+1)
			b.WriteString(" ")
		}
		fmt.Fprintf(b, "](%d)", v.Len())
	case reflect.Map:
		b.WriteString("map[")
		for _, k := range v.MapKeys() {
			dump(b, k, d+1)
			b.WriteString(":")
			dump(b, v.MapIndex(k), d+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", clip(v.String(), 100))
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%v(bits %x)", v.Float(), math.Float64bits(v.Float()))
	default:
		if v.CanInterface() {
			fmt.Fprintf(b, "%v", v.Interface())
		} else {
			fmt.Fprintf(b, "%v", v)
		}
	}
}

// ---------------------------------------------------------------- generators

func T(v interface{}) reflect.Type { return reflect.TypeOf(v) }

var scalarTypes = []reflect.Type{T(false), T(int8(0)), T(int16(0)), T(int32(0)), T(int64(0)), T(uint8(0)), T(uint16(0)), T(uint32(0)), T(uint64(0)), T(float32(0)), T(float64(0)), T(""),
	T(nBool(false)), T(nI8(0)), T(nI16(0)), T(nI32(0)), T(nI64(0)), T(nU8(0)), T(nU16(0)), T(nU32(0)), T(nU64(0)), T(nF32(0)), T(nF64(0)), T(nStr(""))}
var ownTypes = []reflect.Type{T(Bool(false)), T(Varint16(0)), T(Varint32(0)), T(Varuint16(0)), T(Varuint32(0)), T(Int64(0)), T(Uint64(0)), T(JSONFloat64(0)), T(Uint128{}), T(Int128{}), T(Float128{}), T(HexBytes{}), T(SafeString("")),
	T(cmV{}), T(cmI(0)), T(cmS{}), T(cmA{}), T(&cmP{})}
var namedTypes = []reflect.Type{T(nBS{}), T(nU16S{}), T(nStrS{}), T(nU8A{}), T(nCA{}), T(nMap{}), T(nMapU{})}
var staticTypes = []reflect.Type{T(sInner{}), T(sPlain{}), T(sEmb{}), T(sOpt{}), T(sCOpt{}), T(sSize{}), T(sSizeP{}), T(sSkip{}), T(sUnexpSize{}), T(sEnum{}), T(sEnumB{}), T(sHoldEnum{}), T(sNotEnum{}), T(sLate{}), T(sExt{}), T(sLib{}), T(sOrder{}), T(sMaps{}), T(sPtrs{}), T(sDeep{}),
	T([]sInner{}), T([3]sInner{}), T(&sPlain{}), T([]sEnum{}), T(map[string]sInner{}), T([]*sInner{}), T([][]uint16{}), T([][]string{}), T([4][3]int16{}), T([2][]uint8{}), T([]map[string]uint8{}), T([][3]uint32{}), T([]nU64{}), T([6]nU32{}), T([9]uint64{}), T([]bool{}), T([]float64{}), T([]int8{})}
var keyTypes = []reflect.Type{T(""), T(nStr("")), T(uint8(0)), T(uint16(0)), T(uint32(0)), T(uint64(0)), T(int8(0)), T(int16(0)), T(int32(0)), T(int64(0)), T(false), T(float32(0)), T(float64(0)), T(nU8(0)), T(nI64(0)), T(nU64(0)), T(nBool(false)), T(nF64(0)), T(nI16(0)), T(nF32(0)),
	T(Varuint16(0)), T(Varint32(0)), T(Int64(0)), T(Uint64(0)), T(SafeString("")), T(Bool(false)), T(cmI(0)), T(JSONFloat64(0))}

// nonEmpty: every value of t takes at least one byte in enc.
func nonEmpty(enc Encoding, t reflect.Type) bool {
	if isOwn(t) {
		return true
	}
	switch t.Kind() {
	case reflect.Ptr:
		return nonEmpty(enc, t.Elem())
	case reflect.Array:
		return t.Len() > 0 && nonEmpty(enc, t.Elem())
	case reflect.Struct:
		if enc == EncodingBorsh && isEnum(t) {
			return true
		}
		sized := map[string]bool{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			tg := parseTag(f.Tag)
			if tg.skip || f.PkgPath != "" {
				continue
			}
			if tg.sizeof != "" {
				sized[tg.sizeof] = true
			}
			if tg.ext {
				continue
			}
			if tg.opt || enc == EncodingBorsh && tg.copt || !sized[f.Name] && nonEmpty(enc, f.Type) {
				return true
			}
		}
		return false
	case reflect.Interface:
		return false
	}
	return true
}
func nonEmptyAll(t reflect.Type) bool {
	return nonEmpty(EncodingBin, t) && nonEmpty(EncodingBorsh, t) && nonEmpty(EncodingCompactU16, t)
}

// Type makes a random type whose values the three encoders support.
func (c *Ctx) Type(depth int) reflect.Type {
	r := c.R
	k := r.Intn(20)
	if depth <= 0 && k >= 8 {
		k = r.Intn(8)
	}
	switch {
	case k < 5:
		return scalarTypes[r.Intn(len(scalarTypes))]
	case k < 7:
		return ownTypes[r.Intn(len(ownTypes))]
	case k < 8:
		return namedTypes[r.Intn(len(namedTypes))]
	case k < 9:
		return staticTypes[r.Intn(len(staticTypes))]
	case k < 11:
		return c.sliceOf(depth)
	case k < 12:
		return reflect.ArrayOf([]int{0, 1, 2, 3, 5, 33}[r.Intn(6)], c.Type(depth-1))
	case k < 13:
		return reflect.MapOf(keyTypes[r.Intn(len(keyTypes))], c.Type(depth-1))
	case k < 15:
		t := c.Type(depth - 1)
		if t == T(&cmP{}) {
			return t
		}
		return reflect.PtrTo(t)
	}
	return c.structType(depth)
}
func (c *Ctx) sliceOf(depth int) reflect.Type {
	for {
		t := c.Type(depth - 1)
		if nonEmptyAll(t) {
			return reflect.SliceOf(t)
		}
	}
}

var intTypes = []reflect.Type{T(int8(0)), T(int16(0)), T(int32(0)), T(int64(0)), T(uint8(0)), T(uint16(0)), T(uint32(0)), T(uint64(0)), T(nU8(0)), T(nI32(0)), T(Varuint16(0)), T(Uint64(0)), T(Varint32(0))}
var oddTypes = []reflect.Type{T(int(0)), T(uint(0)), T(complex64(0)), T(make(chan int)), T(func() {}), T(uintptr(0))}

func (c *Ctx) structType(depth int) reflect.Type {
	r := c.R
	n := 1 + r.Intn(5)
	var fs []reflect.StructField
	add := func(name string, t reflect.Type, words []string, extra string) {
		f := reflect.StructField{Name: name, Type: t}
		if name[0] >= 'a' && name[0] <= 'z' {
			f.PkgPath = "vh"
		}
		if len(words) > 0 {
			r.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
			f.Tag = reflect.StructTag(`bin:"` + strings.Join(words, " ") + `"`)
		}
		if extra != "" {
			f.Tag = reflect.StructTag(strings.TrimSpace(string(f.Tag) + " " + extra))
		}
		fs = append(fs, f)
	}
	if r.Intn(6) == 0 { // enum
		if r.Intn(2) == 0 {
			add("E", T(BorshEnum(0)), []string{"enum"}, "")
		} else {
			add("E", T(BorshEnum(0)), nil, `borsh_enum:"true"`)
		}
		for i := 0; i < n; i++ {
			add(fmt.Sprintf("V%d", i), c.Type(depth-1), nil, "")
		}
		return reflect.StructOf(fs)
	}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("F%d", i)
		var words []string
		if r.Intn(3) == 0 {
			words = append(words, []string{"big", "big", "little"}[r.Intn(3)])
		}
		switch k := r.Intn(14); {
		case k == 0: // left out, of any type
			t := c.Type(depth - 1)
			if r.Intn(3) == 0 {
				t = oddTypes[r.Intn(len(oddTypes))]
			}
			switch r.Intn(4) {
			case 0:
				add(name, t, append(words, "-"), "")
			case 1:
				add(name, t, append(words, "skip"), "")
			case 2:
				add(name, t, words, `borsh_skip:"true"`)
			case 3:
				add("f"+name, t, words, "")
			}
		case k <= 3: // optional
			words = append(words, []string{"optional", "option"}[r.Intn(2)])
			t := c.Type(depth - 1)
			if t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Ptr {
				t = t.Elem()
			}
			for t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Ptr {
				t = t.Elem()
			}
			if r.Intn(2) == 0 && t.Kind() != reflect.Ptr {
				t = reflect.PtrTo(t)
			}
			add(name, t, words, "")
		case k == 4: // coption
			t := c.Type(depth - 1)
			for t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Ptr {
				t = t.Elem()
			}
			add(name, t, append(words, "coption"), "")
		case k <= 6: // sizeof pair
			add(name, intTypes[r.Intn(len(intTypes))], append(words, "sizeof=S"+name), "")
			if r.Intn(2) == 0 {
				add("M"+name, c.Type(depth-1), nil, "")
			}
			t := c.sliceOf(depth)
			if r.Intn(5) == 0 {
				t = reflect.PtrTo(t)
			}
			add("S"+name, t, nil, "")
		default:
			add(name, c.Type(depth-1), words, "")
		}
	}
	return reflect.StructOf(fs)
}

func (c *Ctx) scalarU(t reflect.Type) uint64 { return c.U64() }

// Val makes a random value of t (pointers non-nil).
func (c *Ctx) Val(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	c.fill(v, depth)
	return v
}
func (c *Ctx) fill(v reflect.Value, depth int) {
	r := c.R
	t := v.Type()
	n := c.Len()
	if depth > 0 && n > 12 || depth > 3 {
		n = r.Intn(3)
	}
	if depth > 9 {
		n = 0
	}
	switch t {
	case T(SafeString("")):
		v.SetString(strings.ToValidUTF8(c.Str(), "?"))
		return
	case T(Uint128{}), T(Int128{}), T(Float128{}):
		v.FieldByName("Hi").SetUint(c.U64())
		v.FieldByName("Lo").SetUint(c.U64())
		if r.Intn(3) == 0 {
			v.FieldByName("Endianness").Set(reflect.ValueOf(orders[r.Intn(2)]))
		}
		return
	case T(cmS{}):
		n = n % 200
	}
	switch k := t.Kind(); {
	case k == reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case k >= reflect.Int && k <= reflect.Int64:
		v.SetInt(int64(c.U64()) << (64 - t.Bits()) >> (64 - t.Bits()))
	case k >= reflect.Uint && k <= reflect.Uintptr:
		v.SetUint(c.U64() << (64 - t.Bits()) >> (64 - t.Bits()))
	case k == reflect.Float32:
		b := uint32(c.U64())
		f := math.Float32frombits(b)
		if f != f {
			f = math.Float32frombits(b | 0x400000) // quiet: reflection cannot carry a signalling float32
			if r.Intn(8) > 0 {
				f = 1.5
			}
		}
		v.SetFloat(float64(f))
	case k == reflect.Float64:
		f := math.Float64frombits(c.U64())
		if f != f && r.Intn(8) > 0 {
			f = -2.25
		}
		v.SetFloat(f)
	case k == reflect.Complex64:
		v.SetComplex(complex(1, 2))
	case k == reflect.String:
		v.SetString(c.Str())
	case k == reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		c.fill(v.Elem(), depth)
	case k == reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.fill(v.Index(i), depth+1)
		}
	case k == reflect.Slice:
		if n == 0 && r.Intn(2) == 0 {
			return
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			c.fill(v.Index(i), depth+1)
		}
	case k == reflect.Map:
		if n == 0 && r.Intn(2) == 0 {
			return
		}
		v.Set(reflect.MakeMap(t))
		for i := 0; i < n && i < 5; i++ {
			key := c.Val(t.Key(), depth+2)
			if kk := key.Kind(); (kk == reflect.Float32 || kk == reflect.Float64) && key.Float() != key.Float() {
				continue
			}
			if t.Key() == T(Bool(false)) || key.IsValid() {
				v.SetMapIndex(key, c.Val(t.Elem(), depth+2))
			}
		}
	case k == reflect.Struct:
		if isOwn(t) {
			for i := 0; i < t.NumField(); i++ {
				c.fill(v.Field(i), depth+1)
			}
			return
		}
		enum := isEnum(t)
		sel := -1
		if enum {
			sel = 1 + r.Intn(t.NumField()-1)
		}
		sizeOf := map[string]int{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			tg := parseTag(f.Tag)
			fv := v.Field(i)
			if f.PkgPath != "" {
				fv = reflect.NewAt(f.Type, unsafe.Pointer(fv.UnsafeAddr())).Elem()
			}
			switch {
			case enum && i == 0:
				fv.SetUint(uint64(sel - 1))
				continue
			case tg.skip || f.PkgPath != "":
				if r.Intn(2) == 0 && f.Type.Kind() != reflect.Chan && f.Type.Kind() != reflect.Func && f.Type.Kind() != reflect.Interface {
					c.fill(fv, depth+2)
				}
				continue
			case (tg.opt || tg.copt) && r.Intn(3) == 0:
				// absent (coption means absent in Borsh only)
				if tg.opt || c.enc == EncodingBorsh || !hasPtr(f.Type) {
					continue
				}
			case f.Type.Kind() == reflect.Interface || f.Type.Kind() == reflect.Chan || f.Type.Kind() == reflect.Func:
				continue
			}
			c.fill(fv, depth+1)
			if tg.sizeof != "" {
				sizeOf[tg.sizeof] = i
			}
		}
		for name, i := range sizeOf {
			l := v.FieldByName(name)
			if !l.IsValid() {
				continue
			}
			s := l
			for s.Kind() == reflect.Ptr && !s.IsNil() {
				s = s.Elem()
			}
			if s.Kind() != reflect.Slice {
				continue
			}
			if s.Len() > 100 {
				s.Set(s.Slice(0, 100))
			}
			fv := v.Field(i)
			for fv.Kind() == reflect.Ptr {
				fv = fv.Elem()
			}
			if fv.Kind() >= reflect.Uint && fv.Kind() <= reflect.Uint64 {
				fv.SetUint(uint64(s.Len()))
			} else {
				fv.SetInt(int64(s.Len()))
			}
		}
	}
}

// typePool keeps the number of distinct run-time types bounded.
type typePool struct{ ts []reflect.Type }

var pool typePool

func (c *Ctx) PoolType() reflect.Type {
	if len(pool.ts) < 600 && c.R.Intn(4) == 0 || len(pool.ts) < 20 {
		t := c.Type(3)
		pool.ts = append(pool.ts, t)
		return t
	}
	if c.R.Intn(5) == 0 {
		return staticTypes[c.R.Intn(len(staticTypes))]
	}
	return pool.ts[c.R.Intn(len(pool.ts))]
}
func marshal(enc Encoding, v interface{}) (b []byte, err error) {
	var buf bytes.Buffer
	err = NewEncoderWithEncoding(&buf, enc).Encode(v)
	return buf.Bytes(), err
}
func marshalFn(enc Encoding) func(interface{}) ([]byte, error) {
	return map[Encoding]func(interface{}) ([]byte, error){EncodingBin: MarshalBin, EncodingBorsh: MarshalBorsh, EncodingCompactU16: MarshalCompactU16}[enc]
}
func unmarshalFn(enc Encoding) func(interface{}, []byte) error {
	return map[Encoding]func(interface{}, []byte) error{EncodingBin: UnmarshalBin, EncodingBorsh: UnmarshalBorsh, EncodingCompactU16: UnmarshalCompactU16}[enc]
}

// hasCOptPtr: in Bin and CompactU16 coption is not an option, so nil pointers there are outside the layout.
func valueCase(enc Encoding, v reflect.Value) func() string {
	return func() string { return fmt.Sprintf("%v value of type %v: %s", enc, v.Type(), showDeep(v)) }
}

func checkEncode(c *Ctx, enc Encoding, v reflect.Value) ([]byte, bool) {
	want, ok := specEnc(enc, v, defOpt)
	var got []byte
	var err error
	arg := v.Interface()
	c.NoPanic("Encode", func() {
		switch c.R.Intn(3) {
		case 0:
			got, err = marshalFn(enc)(arg)
		case 1:
			if v.Type() != T(&cmP{}) {
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				arg = p.Interface()
			}
			fallthrough
		default:
			got, err = marshal(enc, arg)
		}
	})
	if !ok {
		c.Check(err != nil, "encoding must report an error and wrote [%s]", func() string { return hx(got) })
		return nil, false
	}
	c.Check(err == nil, "encoding failed: %v", err)
	c.Check(want.matches(got), "wrote [%s], the layout is [%s]", func() string { return hx(got) }, func() string { return want.String() })
	return got, true
}
func checkDecode(c *Ctx, enc Encoding, v reflect.Value, data []byte) {
	tail := c.Bytes(c.R.Intn(4))
	in := append(append([]byte{}, data...), tail...)
	if hasExt(v.Type(), 0) {
		in = in[:len(data)]
		tail = nil
	}
	d := NewDecoderWithEncoding(in, enc)
	p := reflect.New(v.Type())
	var err error
	c.NoPanic("Decode", func() {
		if len(tail) == 0 && c.R.Intn(2) == 0 {
			err = unmarshalFn(enc)(p.Interface(), in)
			if err == nil {
				d.SkipBytes(uint(len(data)))
			}
		} else {
			err = d.Decode(p.Interface())
		}
	})
	c.Check(err == nil, "decoding [%s] failed: %v", func() string { return hx(in) }, err)
	diff := same(enc, v, p.Elem(), defOpt)
	c.Check(diff == "", "decoding [%s]: %s", func() string { return hx(in) }, diff)
	c.Check(int(d.Position()) == len(data), "decoding [%s] consumed %d of %d bytes", func() string { return hx(in) }, d.Position(), len(data))
}
func hasExt(t reflect.Type, d int) bool {
	if d > 8 {
		return false
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return hasExt(t.Elem(), d+1)
	case reflect.Map:
		return hasExt(t.Elem(), d+1) || hasExt(t.Key(), d+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if parseTag(t.Field(i).Tag).ext || hasExt(t.Field(i).Type, d+1) {
				return true
			}
		}
	}
	return false
}
func (c *Ctx) CaseV(enc Encoding, v reflect.Value) {
	c.CaseL(fmt.Sprint(enc, v.Type().String(), c.evals), valueCase(enc, v))
}

// floatQuirk: values outside the round trip (NaN keys etc.) are not generated.
func encodeSection(es []Encoding, decode bool) Section {
	return Section{Name: "random types", Weight: 3, Run: func(c *Ctx) {
		t := c.PoolType()
		for i := 0; i < 4; i++ {
			enc := es[c.R.Intn(len(es))]
			c.enc = enc
			v := c.Val(t, 0)
			c.CaseV(enc, v)
			if b, ok := checkEncode(c, enc, v); ok && decode {
				checkDecode(c, enc, v, b)
			}
		}
	}}
}

// kindsOnce walks every kind in every position with edge values.
func kindsOnce(es []Encoding, decode bool) Section {
	return Section{Name: "kinds and positions", Once: true, Run: func(c *Ctx) {
		base := append(append(append([]reflect.Type{}, scalarTypes...), ownTypes...), namedTypes...)
		var ts []reflect.Type
		for _, t := range base {
			ts = append(ts, t, reflect.SliceOf(t), reflect.ArrayOf(3, t), reflect.ArrayOf(0, t), reflect.MapOf(T(""), t), reflect.SliceOf(reflect.SliceOf(t)))
			if t != T(&cmP{}) {
				ts = append(ts, reflect.PtrTo(t), reflect.PtrTo(reflect.PtrTo(t)), reflect.SliceOf(reflect.PtrTo(t)))
			}
			var fs []reflect.StructField
			for i, tag := range []string{``, `bin:"big"`, `bin:"little"`, `bin:"optional"`, `bin:"big optional"`, `bin:"coption"`, `bin:"coption big"`, `bin:"-"`} {
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("A%d", i), Type: t, Tag: reflect.StructTag(tag)})
				if t != T(&cmP{}) && !strings.Contains(tag, "coption") {
					fs = append(fs, reflect.StructField{Name: fmt.Sprintf("P%d", i), Type: reflect.PtrTo(t), Tag: reflect.StructTag(tag)})
				}
			}
			st := reflect.StructOf(fs)
			ts = append(ts, st, reflect.SliceOf(st))
			en := reflect.StructOf([]reflect.StructField{{Name: "E", Type: T(BorshEnum(0)), Tag: `bin:"enum"`}, {Name: "X", Type: T(uint16(0))}, {Name: "V", Type: t}, {Name: "W", Type: reflect.SliceOf(t)}})
			ts = append(ts, en)
			sz := reflect.StructOf([]reflect.StructField{{Name: "N", Type: T(uint16(0)), Tag: `bin:"sizeof=L big"`}, {Name: "L", Type: reflect.SliceOf(t)}, {Name: "X", Type: t}})
			ts = append(ts, sz)
		}
		for _, k := range keyTypes {
			ts = append(ts, reflect.MapOf(k, T(uint16(0))), reflect.MapOf(k, T("")), reflect.MapOf(k, T(sInner{})))
		}
		ts = append(ts, staticTypes...)
		for _, t := range ts {
			for _, enc := range es {
				c.enc = enc
				for i := 0; i < 6; i++ {
					v := c.Val(t, 1)
					if i == 0 && t.Kind() != reflect.Ptr && t.Kind() != reflect.Map && !hasPtr(t) {
						v = reflect.New(t).Elem() // zero value
					}
					c.CaseV(enc, v)
					if b, ok := checkEncode(c, enc, v); ok && decode {
						checkDecode(c, enc, v, b)
					}
				}
			}
		}
		// long contents around the prefixes' boundaries
		for _, n := range []int{126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65534, 65535, 65536, 70000} {
			for _, enc := range es {
				for _, x := range []interface{}{strings.Repeat("x", n), c.R.Perm(n)[:0], make([]byte, n), make([]uint16, n), make([]bool, n), nStr(strings.Repeat("y", n)), make([]nU8, n)} {
					v := reflect.ValueOf(x)
					if v.Kind() == reflect.Slice && v.Len() == 0 {
						continue
					}
					s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: T(uint8(0))}, {Name: "X", Type: v.Type()}, {Name: "B", Type: T(uint8(0))}})).Elem()
					s.Field(0).SetUint(7)
					s.Field(1).Set(v)
					s.Field(2).SetUint(9)
					c.CaseL(fmt.Sprint(enc, v.Type(), n), func() string { return fmt.Sprintf("%v %v of length %d between two bytes", enc, v.Type(), n) })
					if b, ok := checkEncode(c, enc, s); ok && decode {
						checkDecode(c, enc, s, b)
					}
				}
			}
		}
		if !decode {
			unsupported(c, es)
			nilInputs(c, es)
		}
		longLists(c, es, decode)
		bigTypes(c, es, decode)
	}}
}

// bigTypes: enums with many variants (every ordinal) and structs with many fields.
func bigTypes(c *Ctx, es []Encoding, decode bool) {
	vts := []reflect.Type{T(uint8(0)), T(uint16(0)), T(""), T(sInner{}), T(&sInner{}), T([]uint16{}), T(cmI(0)), T(EmptyVariant{}), T(int64(0))}
	for _, n := range []int{1, 2, 7, 100, 127, 128, 129, 200, 255, 256} {
		fs := []reflect.StructField{{Name: "Enum", Type: T(BorshEnum(0)), Tag: `borsh_enum:"true"`}}
		for i := 0; i < n; i++ {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("V%d", i), Type: vts[(i*5+i/9)%len(vts)]})
		}
		en := reflect.StructOf(fs)
		fs[0].Tag = ``
		fs[0].Type = T(uint8(0))
		st := reflect.StructOf(fs)
		for _, enc := range es {
			c.enc = enc
			if enc == EncodingBorsh {
				for o := 0; o < 256; o++ {
					v := reflect.New(en).Elem()
					c.fill(v, 3)
					for i := 1; i <= n; i++ {
						if fv := v.Field(i); fv.Kind() == reflect.Ptr && fv.IsNil() {
							fv.Set(reflect.New(fv.Type().Elem()))
						}
					}
					v.Field(0).SetUint(uint64(o))
					c.CaseL(fmt.Sprint("enum", n, o), func() string {
						return fmt.Sprintf("ordinal %d of an enum with %d variants: %s", o, n, showDeep(v.Field(o%n+1)))
					})
					if o >= n {
						var err error
						c.NoPanic("Encode", func() { _, err = marshal(enc, v.Interface()) })
						c.Check(err != nil, "encoding enum ordinal %d of %d variants must be an error", o, n)
						if decode {
							c.NoPanic("Decode", func() {
								err = UnmarshalBorsh(reflect.New(en).Interface(), append([]byte{byte(o)}, make([]byte, 40)...))
							})
							c.Check(err != nil, "decoding enum ordinal %d of %d variants must be an error", o, n)
						}
						continue
					}
					if b, ok := checkEncode(c, enc, v); ok && decode {
						checkDecode(c, enc, v, b)
					}
				}
			}
			v := c.Val(st, 2)
			c.CaseL(fmt.Sprint(enc, "struct", n), func() string { return fmt.Sprintf("%v struct with %d fields", enc, n+1) })
			if b, ok := checkEncode(c, enc, v); ok && decode {
				checkDecode(c, enc, v, b)
			}
		}
	}
}

// history: several values through one encoder and one decoder; results already handed out must not change afterwards.
type kept struct {
	b, orig []byte
	v       reflect.Value
	dump    string
	what    string
}

var keptRing []kept

func valueHistories(es []Encoding, decode bool) Section {
	return Section{Name: "histories", Run: func(c *Ctx) {
		enc := es[c.R.Intn(len(es))]
		c.enc = enc
		var buf bytes.Buffer
		e := NewEncoderWithEncoding(&buf, enc)
		var vs []reflect.Value
		var ends []int
		var want pat
		for i, n := 0, 2+c.R.Intn(3); i < n; i++ {
			t := c.PoolType()
			if hasExt(t, 0) {
				continue
			}
			v := c.Val(t, 1)
			p, ok := specEnc(enc, v, defOpt)
			if !ok {
				continue
			}
			vs, want = append(vs, v), want.add(p)
			var err error
			c.CaseV(enc, v)
			c.NoPanic("Encode", func() { err = e.Encode(v.Interface()) })
			c.Check(err == nil, "encoding failed: %v", err)
			c.Check(e.Written() == buf.Len(), "Written()=%d of %d", e.Written(), buf.Len())
			c.Check(want.matches(buf.Bytes()), "%d values through one encoder wrote [%s], the layout is [%s]", len(vs), func() string { return hx(buf.Bytes()) }, func() string { return want.String() })
			ends = append(ends, buf.Len())
			if b, err := marshalFn(enc)(v.Interface()); err == nil {
				keptRing = append(keptRing, kept{b: b, orig: cp(b), what: fmt.Sprintf("the bytes of a %v value", v.Type())})
			}
		}
		if decode && len(vs) > 0 {
			d := NewDecoderWithEncoding([]byte{1, 2, 3}, enc)
			d.SkipBytes(2)
			data := cp(buf.Bytes())
			d.Reset(data)
			for i, v := range vs {
				c.CaseV(enc, v)
				p := reflect.New(v.Type())
				var err error
				c.NoPanic("Decode", func() { err = d.Decode(p.Interface()) })
				c.Check(err == nil, "decoding value %d of [%s] failed: %v", i, func() string { return hx(data) }, err)
				diff := same(enc, v, p.Elem(), defOpt)
				c.Check(diff == "", "decoding value %d of [%s]: %s", i, func() string { return hx(data) }, diff)
				c.Check(int(d.Position()) == ends[i], "decoding value %d of [%s] ended at %d, not %d", i, func() string { return hx(data) }, d.Position(), ends[i])
				keptRing = append(keptRing, kept{v: p.Elem(), dump: showDeepSorted(p.Elem()), what: fmt.Sprintf("a decoded %v", v.Type())})
			}
		}
		for _, k := range keptRing {
			if k.b != nil {
				c.Check(bytes.Equal(k.b, k.orig), "%s changed afterwards from [%s] to [%s]", k.what, hx(k.orig), hx(k.b))
			} else if k.v.IsValid() {
				now := showDeepSorted(k.v)
				c.Check(now == k.dump, "%s changed afterwards from %s to %s", k.what, k.dump, now)
			}
		}
		if len(keptRing) > 24 {
			keptRing = keptRing[len(keptRing)-12:]
		}
	}}
}

// parallelSection: independent encoders and decoders used at the same time do not disturb each other.
func parallelSection(es []Encoding, decode bool) Section {
	return Section{Name: "parallel use", Run: func(c *Ctx) {
		type job struct {
			enc  Encoding
			v    reflect.Value
			p    pat
			flat []byte
		}
		var jobs []job
		for len(jobs) < 6 {
			enc := es[c.R.Intn(len(es))]
			c.enc = enc
			t := c.PoolType()
			if hasExt(t, 0) {
				continue
			}
			v := c.Val(t, 2)
			if p, ok := specEnc(enc, v, defOpt); ok {
				f, _ := p.flat()
				jobs = append(jobs, job{enc, v, p, f})
			}
		}
		c.Case("parallel use")
		errs := make([]string, len(jobs))
		var wg sync.WaitGroup
		for i := range jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[i] = fmt.Sprint("panic: ", r)
					}
				}()
				j := jobs[i]
				for k := 0; k < 20 && errs[i] == ""; k++ {
					b, err := marshal(j.enc, j.v.Interface())
					if err != nil || !j.p.matches(b) {
						errs[i] = fmt.Sprintf("wrote [%s] (%v), the layout is [%s]", hx(b), err, j.p)
						return
					}
					if !decode {
						continue
					}
					q := reflect.New(j.v.Type())
					if err := unmarshalFn(j.enc)(q.Interface(), b); err != nil {
						errs[i] = fmt.Sprintf("decoding [%s] failed: %v", hx(b), err)
					} else if s := same(j.enc, j.v, q.Elem(), defOpt); s != "" {
						errs[i] = fmt.Sprintf("decoding [%s]: %s", hx(b), s)
					}
				}
			}(i)
		}
		wg.Wait()
		for i, e := range errs {
			c.CaseV(jobs[i].enc, jobs[i].v)
			c.Check(e == "", "while others encode and decode: %s", e)
		}
	}}
}

// longLists: containers of every kind whose length crosses the prefixes' boundaries (short elements).
func longLists(c *Ctx, es []Encoding, decode bool) {
	for _, n := range []int{127, 128, 200, 300, 1000, 16384} {
		for _, enc := range es {
			for _, t := range []reflect.Type{T([]string{}), T([]int16{}), T([]uint32{}), T([]uint64{}), T([]nU32{}), T([]sInner{}), T(map[uint32]uint8{}), T(map[string]bool{})} {
				if n > 2000 && (t.Kind() == reflect.Map) {
					continue
				}
				v := reflect.New(t).Elem()
				if t.Kind() == reflect.Slice {
					v.Set(reflect.MakeSlice(t, n, n))
					for i := 0; i < n; i++ {
						if i%17 == 3 {
							c.fill(v.Index(i), 4)
						}
					}
				} else {
					if enc != EncodingBorsh {
						continue
					}
					v.Set(reflect.MakeMap(t))
					for i := 0; i < n; i++ {
						v.SetMapIndex(c.Val(t.Key(), 3), c.Val(t.Elem(), 3))
					}
				}
				c.CaseL(fmt.Sprint(enc, t, n), func() string { return fmt.Sprintf("%v %v with %d elements", enc, t, n) })
				if b, ok := checkEncode(c, enc, v); ok && decode {
					checkDecode(c, enc, v, b)
				}
			}
		}
	}
}
func hasPtr(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr:
		return true
	case reflect.Array:
		return hasPtr(t.Elem())
	case reflect.Struct:
		if isEnum(t) {
			return true
		}
		for i := 0; i < t.NumField(); i++ {
			if tg := parseTag(t.Field(i).Tag); tg.opt || tg.skip {
				continue
			}
			if hasPtr(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}
func unsupported(c *Ctx, es []Encoding) {
	ch := make(chan int)
	x := 5
	bads := []interface{}{int(1), uint(1), complex64(1), complex128(2), ch, func() {}, uintptr(3), []int{1}, [2]uint{1, 2}, map[string]int{"a": 1}, &x, []complex64{1}, []chan int{ch}, map[uint8]func(){1: func() {}},
		struct{ A int }{1}, struct {
			A uint8
			B *int
		}{1, &x}, struct {
			A []uint
		}{[]uint{1}}, []uintptr{1}}
	for _, enc := range es {
		for _, b := range bads {
			c.CaseL(fmt.Sprintf("%v %T", enc, b), func() string { return fmt.Sprintf("%v unsupported %T", enc, b) })
			var err error
			c.NoPanic("Encode", func() { _, err = marshal(enc, b) })
			c.Check(err != nil, "encoding an unsupported %T must be an error", b)
		}
		if enc == EncodingBorsh {
			for n := 2; n < 256; n++ {
				e := struct {
					E BorshEnum `bin:"enum"`
					A uint8
					B uint16
				}{BorshEnum(n), 1, 2}
				var err error
				c.CaseL(fmt.Sprint("enum", n), func() string { return fmt.Sprintf("enum ordinal %d of 2", n) })
				c.NoPanic("Encode", func() { _, err = marshal(enc, e) })
				c.Check(err != nil, "encoding enum ordinal %d of 2 variants must be an error", n)
			}
		}
	}
}
func nilInputs(c *Ctx, es []Encoding) {
	for _, enc := range es {
		c.Case(enc.String() + " Encode(nil)")
		var b []byte
		c.NoPanic("Encode(nil)", func() { b, _ = marshal(enc, nil) })
		c.Check(len(b) == 0, "Encode(nil) wrote [%s]", hx(b))
	}
}
func validUTF8(s string) bool { return utf8.ValidString(s) }

func init() {
	binCompact := []Encoding{EncodingBin, EncodingCompactU16}
	borsh := []Encoding{EncodingBorsh}
	props["C11"] = []Section{kindsOnce(borsh, false), encodeSection(borsh, false), valueHistories(borsh, false), parallelSection(borsh, false)}
	props["C12"] = []Section{kindsOnce(binCompact, false), encodeSection(binCompact, false), valueHistories(binCompact, false), parallelSection(binCompact, false)}
	props["C13"] = []Section{kindsOnce(borsh, true), encodeSection(borsh, true), valueHistories(borsh, true), parallelSection(borsh, true)}
	props["C14"] = []Section{kindsOnce(binCompact, true), encodeSection(binCompact, true), valueHistories(binCompact, true), parallelSection(binCompact, true)}
}
