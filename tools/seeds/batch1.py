H = '''package main

import (
	"bytes"
	"fmt"
	"os"

	bin "github.com/gagliardetto/binary"
)

var _ = bytes.Equal
var _ = bin.LE

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
%s
}
%s
'''
def M(body, extra='', imports=''):
    s = H.replace("%s\n}\n%s", body + "\n}\n" + extra)
    if imports:
        s = s.replace('\t"os"\n', '\t"os"\n' + ''.join('\t"%s"\n' % i for i in imports.split()))
    return s
DEFS = [
 dict(id='c01-skip-signed', property='C01',
  edits=[('decoder.go', 'if uint(dec.Remaining()) < count {', 'if dec.Remaining() < int(count) {')],
  main=M('''	dec := bin.NewBinDecoder([]byte{1, 2, 3, 4})
	dec.ReadByte()
	if err := dec.SkipBytes(^uint(0) - 4); err == nil {
		fail("skipping %d bytes of 3 succeeded", ^uint(0)-4)
	}
	if int(dec.Position())+dec.Remaining() != dec.Len() || dec.Position() > uint(dec.Len()) {
		fail("position %d outside the input", dec.Position())
	}
	if _, err := dec.ReadByte(); err != nil { fail("%v", err) }'''),
  needs='a skip count of 2^63 or more', breaks='SkipBytes compares as signed and accepts counts above MaxInt, moving the cursor before the start of the input'),
 dict(id='c02-compact-size-on-error', property='C02',
  edits=[('compact-u16.go', '''			return 0, 0, fmt.Errorf("byte three continues")
		}
		bytes = bytes[1:]''', '''			return 0, size, fmt.Errorf("byte three continues")
		}
		bytes = bytes[1:]''')],
  main=M('''	dec := bin.NewCompactU16Decoder([]byte{0x80, 0x80, 0x80, 1})
	if _, err := dec.ReadCompactU16(); err == nil { fail("accepted") }
	if dec.Position() != 0 { fail("a failing read moved the cursor to %d", dec.Position()) }'''),
  needs='a compact-u16 whose third byte has the continuation bit set, read through a decoder', breaks='the failing read leaves the cursor two bytes further, because DecodeCompactU16 reports a size with its error'),
 dict(id='c05-alias-third', property='C05',
  edits=[('compact-u16.go', '''		elem := int(elemByte)
		if elem == 0 && nth_byte != 0 {''', '''		elem := int(elemByte)
		if elem == 0 && nth_byte != 0 && (nth_byte == 1 || ln>>7 <= 1) {''')],
  main=M('''	if n, err := bin.DecodeCompactU16LengthFromByteReader(bytes.NewReader([]byte{0x81, 0x82, 0x00})); err == nil {
		fail("alias accepted as %d", n)
	}'''),
  needs='a non-canonical three-byte form read through an io.ByteReader', breaks='a redundant zero third byte is accepted, so a length has two encodings'),
 dict(id='c06-int128-sign', property='C06',
  edits=[('u128.go', '''	comp := byte(0x80)
	buf := Uint128(i).Bytes()
''', '''	comp := byte(0x80)
	buf := Uint128(i).Bytes()
	if i.Lo == 0 && i.Hi == 1<<63 {
		comp = 0
		buf = buf[:0:0]
		buf = append(buf, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
		return (&big.Int{}).SetBytes(buf)
	}
''')],
  main=M('''	v := bin.Int128{Lo: 0, Hi: 1 << 63}
	if v.BigInt().String() != "-170141183460469231731687303715884105728" { fail("min int128 is %s", v.BigInt()) }'''),
  needs='the minimum 128-bit value', breaks='Int128 minimum is reported as positive 2^127'),
 dict(id='c07-rust-len-trunc', property='C07',
  edits=[('decoder.go', '''	if length > 0x7FFF_FFFF {
		return "", io.ErrUnexpectedEOF
	}
	bytes, err := dec.ReadNBytes(int(length))''', '''	n := int(uint32(length))
	if n > 0x7FFF_FFFF {
		return "", io.ErrUnexpectedEOF
	}
	bytes, err := dec.ReadNBytes(n)''')],
  main=M('''	dec := bin.NewBinDecoder([]byte{2, 0, 0, 0, 1, 0, 0, 0, 'a', 'b', 'c'})
	if s, err := dec.ReadRustString(); err == nil { fail("length 2^32+2 accepted as %q", s) }'''),
  needs='a Rust string length whose low 32 bits are small and whose high 32 bits are not zero', breaks='the u64 prefix is truncated to 32 bits, so a prefix promising 4 GiB returns data'),
 dict(id='c09-nan-payload', property='C09',
  edits=[('decoder.go', '''		if math.IsNaN(out) {''', '''		if n&0x7FF8000000000000 == 0x7FF8000000000000 {''')],
  main=M('''	dec := bin.NewBorshDecoder([]byte{1, 0, 0, 0, 0, 0, 0xF0, 0x7F})
	if f, err := dec.ReadFloat64(bin.LE); err == nil { fail("signalling NaN accepted: %v", f) }'''),
  needs='a signalling NaN bit pattern in Borsh', breaks='signalling NaNs pass the Borsh NaN check'),
 dict(id='c10-write-short', property='C10',
  edits=[('encoder.go', '''func (e *Encoder) Write(b []byte) (n int, err error) {
	e.count += len(b)''', '''func (e *Encoder) Write(b []byte) (n int, err error) {
	if len(b) == 0 {
		return 0, nil
	}
	e.count += cap(b)''')],
  main=M('''	var buf bytes.Buffer
	e := bin.NewBinEncoder(&buf)
	e.Write(make([]byte, 3, 10))
	if e.Written() != buf.Len() { fail("written says %d, the writer got %d", e.Written(), buf.Len()) }'''),
  needs='Write with a slice whose capacity exceeds its length', breaks='Written counts the capacity'),
 dict(id='c11-named-int8', property='C11',
  edits=[('encoder_borsh.go', '''	if int(enum)+1 >= t.NumField() {
		return errors.New("complex enum too large")
	}
	return enc.encodeBorsh(rv.Field(int(enum)+1), nil)''', '''	if int(enum) >= t.NumField() {
		return errors.New("complex enum too large")
	}
	return enc.encodeBorsh(rv.Field((int(enum)+1)%t.NumField()), nil)''')],
  main=M('''	type E struct {
		Enum bin.BorshEnum `borsh_enum:"true"`
		A    uint8
		B    uint16
	}
	if b, err := bin.MarshalBorsh(E{Enum: 2}); err == nil { fail("an ordinal without a variant encoded to %v", b) }'''),
  needs='an enum whose ordinal is exactly one past the last variant', breaks='the out-of-range ordinal encodes itself as payload instead of being an error'),
 dict(id='c15-map-len', property='C15',
  edits=[('decoder_borsh.go', '''		if l < 0 || l > dec.Remaining() {
			return io.ErrUnexpectedEOF
		}
''', '''		if rt.Elem().Kind() == reflect.Struct {
			rv.Set(reflect.MakeSlice(rt, 0, l))
		}
		if l < 0 || l > dec.Remaining() {
			return io.ErrUnexpectedEOF
		}
''')],
  main=M('''	type S struct{ A, B uint64 }
	var v []S
	err := bin.UnmarshalBorsh(&v, []byte{0, 0, 0, 4, 1, 2, 3})
	if err == nil { fail("accepted") }
	if cap(v) > 3 { fail("allocated %d elements for 3 bytes", cap(v)) }'''),
  needs='a lying u32 length in front of a slice of structs', breaks='the slice is allocated before the length is compared with the remaining input'),
 dict(id='c16-sizeof-prefix', property='C16',
  edits=[('tags-parser.go', '''		} else if isIn(s, "coption") {''', '''		} else if strings.HasPrefix(s, "coption") {''')],
  main=M('''	type S struct {
		A uint8 `bin:"coptional"`
	}
	b, err := bin.MarshalBorsh(S{A: 7})
	if err != nil || !bytes.Equal(b, []byte{7}) { fail("unknown word recognised: %v %v", b, err) }'''),
  needs='a tag word that merely starts with coption', breaks='a word other than coption is recognised as coption'),
 dict(id='c17-uvarint-id', property='C17',
  edits=[('variant.go', '''			typeID := TypeIDFromUvarint32(uint32(i))
''', '''			typeID := TypeIDFromUint8(uint8(i))
			if i > 0xff {
				typeID = TypeIDFromUvarint32(uint32(i))
			}
''')],
  main=M('''	types := make([]bin.VariantType, 130)
	for i := range types { types[i] = bin.VariantType{Name: fmt.Sprint("t", i), Type: (*uint8)(nil)} }
	def := bin.NewVariantDefinition(bin.Uvarint32TypeIDEncoding, types)
	if id := def.TypeID("t129"); id != bin.TypeIDFromUvarint32(129) { fail("variant 129 has id %v", id) }'''),
  needs='a variant definition with more than 128 types', breaks='ids 128..255 are stored as plain bytes instead of varints and can no longer be decoded'),
 dict(id='c20-int64-neg', property='C20',
  edits=[('types.go', '''	if i > 0xffffffff || i < -0xffffffff {
		encodedInt''', '''	if u := uint64(i); u > 0xffffffff && i > 0 {
		encodedInt''')],
  main=M('''	b, _ := bin.Int64(-1 << 62).MarshalJSON()
	if string(b) != "\\"-4611686018427387904\\"" { fail("marshalled to %s", b) }'''),
  needs='a negative Int64 beyond 32 bits', breaks='large negative Int64 values are emitted as bare JSON numbers'),
 dict(id='c22-uint-keys', property='C22',
  edits=[('encoder_borsh.go', '''			return a.Uint() < b.Uint()''', '''			return int64(a.Uint()-b.Uint()) < 0''')],
  main=M('''	m := map[uint64]uint8{1: 1, 1<<63 + 2: 2, 1 << 62: 3}
	b, err := bin.MarshalBorsh(m)
	if err != nil { fail("%v", err) }
	for k := range m { _ = k }
	if b[4] != 1 || b[4+9+7] != 0x40 { fail("keys not ascending: %v", b) }'''),
  needs='unsigned map keys more than 2^63 apart', breaks='key comparison overflows, so the order is not by key'),
 dict(id='c21-sigma', property='C21',
  edits=[('heck.go', '''		if c == 'Σ' && chars.PeekNext() == 0 {''', '''		if c == 'Σ' && chars.index == 0 {''')],
  main=M('''	if s := bin.ToPascalCase("ABΣ"); s != "Abς" { fail("got %q", s) }'''),
  needs='a word of three or more letters ending in capital sigma, in pascal case', breaks='the final sigma is lower-cased to the medial form'),
]
