package main

import (
	"encoding/binary"
	"errors"

	. "github.com/gagliardetto/binary"
)

// Named kinds and types with their own marshalers, used by the type generator.
type (
	nBool bool
	nI8   int8
	nI16  int16
	nI32  int32
	nI64  int64
	nU8   uint8
	nU16  uint16
	nU32  uint32
	nU64  uint64
	nF32  float32
	nF64  float64
	nStr  string
	nBS   []byte
	nU16S []uint16
	nStrS []string
	nU8A  [7]uint8
	nCA   [5]nU16
	nMap  map[string]uint32
	nMapU map[nU16]nStr
)

// cmV: value marshaler on a struct.
type cmV struct {
	A uint16
	B string
}

func (v cmV) MarshalWithEncoder(e *Encoder) error {
	if err := e.WriteByte(0xC5); err != nil {
		return err
	}
	if err := e.WriteUint16(v.A, binary.BigEndian); err != nil {
		return err
	}
	return e.WriteRustString(v.B)
}
func (v *cmV) UnmarshalWithDecoder(d *Decoder) error {
	b, err := d.ReadByte()
	if err != nil {
		return err
	}
	if b != 0xC5 {
		return errors.New("cmV marker")
	}
	if v.A, err = d.ReadUint16(binary.BigEndian); err != nil {
		return err
	}
	v.B, err = d.ReadRustString()
	return err
}

// cmI: value marshaler on an int kind.
type cmI int32

func (v cmI) MarshalWithEncoder(e *Encoder) error {
	return e.WriteInt64(int64(v)*3, binary.BigEndian)
}
func (v *cmI) UnmarshalWithDecoder(d *Decoder) error {
	n, err := d.ReadInt64(binary.BigEndian)
	*v = cmI(n / 3)
	return err
}

// cmS: value marshaler on a slice kind.
type cmS []uint16

func (v cmS) MarshalWithEncoder(e *Encoder) error {
	if err := e.WriteUint8(uint8(len(v))); err != nil {
		return err
	}
	for _, x := range v {
		if err := e.WriteUint16(x, binary.BigEndian); err != nil {
			return err
		}
	}
	return nil
}
func (v *cmS) UnmarshalWithDecoder(d *Decoder) error {
	n, err := d.ReadUint8()
	if err != nil {
		return err
	}
	*v = nil
	for i := 0; i < int(n); i++ {
		x, err := d.ReadUint16(binary.BigEndian)
		if err != nil {
			return err
		}
		*v = append(*v, x)
	}
	return nil
}

// cmP: pointer marshaler, used behind pointers only.
type cmP struct{ X uint32 }

func (v *cmP) MarshalWithEncoder(e *Encoder) error {
	return e.WriteUint32(v.X^0x5a5a5a5a, binary.BigEndian)
}
func (v *cmP) UnmarshalWithDecoder(d *Decoder) error {
	n, err := d.ReadUint32(binary.BigEndian)
	v.X = n ^ 0x5a5a5a5a
	return err
}

// cmA: value marshaler on an array kind.
type cmA [2]int16

func (v cmA) MarshalWithEncoder(e *Encoder) error {
	if err := e.WriteInt16(v[1], binary.BigEndian); err != nil {
		return err
	}
	return e.WriteInt16(v[0], binary.LittleEndian)
}
func (v *cmA) UnmarshalWithDecoder(d *Decoder) (err error) {
	if v[1], err = d.ReadInt16(binary.BigEndian); err != nil {
		return
	}
	v[0], err = d.ReadInt16(binary.LittleEndian)
	return
}

// Static shapes the generator cannot build.
type sInner struct {
	A uint8
	B int32 `bin:"big"`
	C []uint16
}
type sPlain struct {
	A uint16
	S string
	I sInner
	P *sInner
	L []sInner
}
type SEmbed struct {
	X uint16 `bin:"big"`
	Y string
}
type sEmb struct {
	SEmbed
	Z uint8
}
type sOpt struct {
	A *uint64 `bin:"optional"`
	B uint32  `bin:"optional"`
	C *sInner `bin:"option"`
	D []byte  `bin:"optional"`
	E *cmV    `bin:"optional"`
	F cmV     `bin:"optional"`
	G *cmP    `bin:"optional"`
	H Uint64  `bin:"optional big"`
}
type sCOpt struct {
	A *uint64 `bin:"coption"`
	B uint32  `bin:"coption"`
	C *sInner `bin:"coption"`
	E *cmV    `bin:"coption"`
	F string  `bin:"coption"`
}
type sSize struct {
	N uint8 `bin:"sizeof=L"`
	X int16 `bin:"big"`
	L []sInner
	M uint64 `bin:"sizeof=K big"`
	J int16  `bin:"sizeof=I"`
	K []uint32
	I []string
}
type sSizeP struct {
	N Varuint16 `bin:"sizeof=L"`
	L *[]uint64
	O int8  `bin:"sizeof=P"`
	P []cmV `bin:"optional"`
}
type sSkip struct {
	A uint8
	b uint64
	C chan int `bin:"-"`
	D func()   `bin:"skip"`
	E int      `borsh_skip:"true"`
	F uint16   `bin:"big"`
	g sInner
	H uint8
}
type sUnexpSize struct {
	n uint8 `bin:"sizeof=L"`
	L []byte
	m uint64
	K []int16
}
type sEnum struct {
	E BorshEnum `bin:"enum"`
	A uint64
	B *sInner
	C string
	D []uint16
	F EmptyVariant
	G sInner
	H *cmV
	I map[string]uint8
	J *uint32
	K [3]int16
	L Uint128
}
type sEnumB struct {
	E BorshEnum `borsh_enum:"true"`
	A sEnum
	B uint8
	C *sEnum
}
type sHoldEnum struct {
	X uint8
	E sEnum
	L []sEnumB
	P *sEnum `bin:"optional"`
}
type sNotEnum struct {
	E BorshEnum
	A uint16
	B uint8
}
type sLate struct {
	A uint8
	E BorshEnum `bin:"enum"`
	B uint16
}
type sExt struct {
	A uint16
	B uint32  `bin:"binary_extension"`
	C []byte  `bin:"binary_extension"`
	D *uint16 `bin:"binary_extension optional"`
}
type sLib struct {
	A Bool
	B Varint16
	C Varint32
	D Varuint16
	E Varuint32
	F Int64       `bin:"big"`
	G Uint64      `bin:"little"`
	H JSONFloat64 `bin:"big"`
	I Uint128     `bin:"big"`
	J Int128
	K Float128 `bin:"big"`
	L HexBytes
	M SafeString
}
type sOrder struct {
	A uint16  `bin:"big"`
	B int32   `bin:"big"`
	C uint64  `bin:"little"`
	D float32 `bin:"big"`
	E float64 `bin:"big"`
	F *uint32 `bin:"big"`
	G []int32 `bin:"big"`
	H [2]uint16
	I sInner           `bin:"big"`
	J map[uint16]int32 `bin:"big"`
	K **int64          `bin:"big"`
}
type sMaps struct {
	A map[string]uint32
	B map[uint8][]uint16
	C map[nI64]sInner
	D map[int16]*sInner
	E map[nStr]map[uint8]bool
	F map[string]string
}
type sPtrs struct {
	A *uint16
	B **uint32
	C *[]uint16
	D *string
	E []*sInner
	F [2]*uint64
	G *cmP
	H []*cmP
	I *cmV
	J *map[string]uint8
}
type sDeep struct {
	L []sDeepN
	M map[string][]sDeepN
}
type sDeepN struct {
	V []cmV
	I []cmI
	S []cmS
	A [2]cmA
	U []Varuint32
	W []Varint16
	X []Int64
	Y []Uint64
	Z []Uint128
	B [3]Bool
	H []HexBytes
}
type sIface struct {
	A uint8
	I interface{}
	B uint16
}
