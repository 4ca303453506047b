package main

import "strings"

const (
	rDec  = `Decoder\.(Read|Peek|Skip|Discard|SetPosition|Reset|Position|Remaining|Len|HasRemaining|SafeRead).*|DecodeCompactU16.*|NewDecoderWithEncoding|readNBytes`
	rUnm  = `(Bool|Int64|Uint64|Varint16|Varint32|Varuint16|Varuint32|JSONFloat64|Uint128|Int128|Float128|HexBytes|SafeString)\.UnmarshalWithDecoder`
	rMar  = `(Bool|Int64|Uint64|Varint16|Varint32|Varuint16|Varuint32|JSONFloat64|Uint128|Int128|Float128|HexBytes|SafeString)\.MarshalWithEncoder`
	rEnc  = `Encoder\.(Write|toWriter).*|NewEncoderWithEncoding|EncodeCompactU16Length`
	rRefl = `Encoder\.(Encode|encode.*)|reflect_writeArrayOf.*|sizeof|parseFieldTag`
	rMsh  = `Marshal(Bin|Borsh|CompactU16)|(Must)?(Bin|Borsh|CompactU16)ByteCount`
	rDecR = `Decoder\.(Decode|decode.*|deserialize.*)|indirect|reflect_readArrayOf.*|Unmarshal(Bin|Borsh|CompactU16)`
	reflD = "the values decoded by the reflective decoders (decodeBorsh/decodeBin/decodeCompactU16 and their struct/enum/slice/map helpers, indirect, reflect_readArrayOf*)"
	reflP = "that supported values encode without error and without panic (the encoder contracts say what is written when nil is returned)"
	reflB = "the reflective interpreter (decodeBorsh/decodeBin/decodeCompactU16, encodeBorsh/encodeBin/encodeCompactU16 and their struct/enum/slice/map helpers)"
)

// a property's clauses rest on the other clauses of the same contracts, so all classes are proved together
var allClasses = []string{"safe", "adv", "val", "out", "acct", "alloc"}

var propDefs = map[string]*PropDef{}

func def(p *PropDef) { propDefs[p.ID] = p }

func init() {
	def(&PropDef{ID: "C01", Level: "proof", Classes: allClasses, Roots: []string{rDec, rUnm}})
	def(&PropDef{ID: "C02", Level: "proof", Classes: allClasses, Roots: []string{rDec, rUnm}})
	def(&PropDef{ID: "C03", Level: "proof", Classes: allClasses, Roots: []string{
		`Decoder\.Read(Bool|Byte|Uint8|Int8|Uint16|Int16|Uint32|Int32|Uint64|Int64)`, `Encoder\.Write(Bool|Byte|Uint8|Int8|Uint16|Int16|Uint32|Int32|Uint64|Int64)`, `(Bool|Int64|Uint64)\.(Unm|M)arshalWith.*`}})
	def(&PropDef{ID: "C04", Level: "proof", Classes: allClasses, Roots: []string{
		`Decoder\.Read(Uvarint64|Varint64|Uvarint32|Varint32|Uvarint16|Varint16)`, `Encoder\.Write(UVarInt|VarInt)`, `(Varint16|Varint32|Varuint16|Varuint32)\.(Unm|M)arshalWith.*`}})
	def(&PropDef{ID: "C05", Level: "proof", Classes: allClasses, Roots: []string{
		`DecodeCompactU16.*`, `EncodeCompactU16Length`, `Decoder\.ReadCompactU16.*`, `Encoder\.WriteCompactU16.*`, `Encoder\.WriteLength`, `Decoder\.ReadLength`}})
	def(&PropDef{ID: "C06", Level: "proof", Classes: allClasses, Roots: []string{
		`Decoder\.Read(Uint128|Int128|Float128)`, `Encoder\.Write(Uint128|Int128)`, `(Uint128|Int128|Float128)\.(Unm|M)arshalWith.*`, `(Uint128|Int128)\.BigInt`, `Uint128\.(Bytes|getByteOrder)`}})
	def(&PropDef{ID: "C07", Level: "proof", Classes: allClasses, Roots: []string{
		`Decoder\.(ReadLength|ReadByteSlice|ReadString|ReadRustString|SafeReadUTF8String|ReadNBytes|ReadBytes|Read)|readNBytes`, `Encoder\.(WriteLength|WriteBytes|WriteString|WriteRustString|Write)`, `(HexBytes|SafeString)\.(Unm|M)arshalWith.*`}})
	def(&PropDef{ID: "C08", Level: "proof", Classes: allClasses, Roots: []string{`Decoder\.Read(Option|COption)`, `Encoder\.Write(Option|COption)`}})
	def(&PropDef{ID: "C09", Level: "proof", Classes: allClasses, Roots: []string{`Decoder\.ReadFloat(32|64)`, `Encoder\.WriteFloat(32|64)`, `JSONFloat64\.(Unm|M)arshalWith.*`}})
	def(&PropDef{ID: "C10", Level: "proof", Classes: allClasses, Roots: []string{rEnc, rMar, `Encoder\.Written|byteCounter\.Write`, rRefl, rMsh}})
	def(&PropDef{ID: "C11", Level: "proof", Classes: allClasses, Roots: []string{rEnc, rMar, rRefl, rMsh}, Bounded: []string{reflP}})
	def(&PropDef{ID: "C12", Level: "proof", Classes: allClasses, Roots: []string{rEnc, rMar, rRefl, rMsh}, Bounded: []string{reflP}})
	def(&PropDef{ID: "C13", Level: "exploration", Classes: allClasses, Roots: []string{rDec, rUnm}, Bounded: []string{reflB}})
	def(&PropDef{ID: "C14", Level: "exploration", Classes: allClasses, Roots: []string{rDec, rUnm}, Bounded: []string{reflB}})
	def(&PropDef{ID: "C15", Level: "proof", Classes: allClasses, Roots: []string{rDec, rUnm, rDecR}, Bounded: []string{"termination of indirect on cyclic pointers"}})
	def(&PropDef{ID: "C16", Level: "proof", Classes: allClasses, Roots: []string{`parseFieldTag`, `Encoder\.encodeStruct.*`}, Bounded: []string{reflD}})
	def(&PropDef{ID: "C17", Level: "proof", Classes: allClasses, Roots: []string{`NewVariantDefinition|VariantDefinition\.TypeID|BaseVariant\..*|lemmaTypeIDs`, `TypeIDFrom.*`, `Decoder\.(ReadUvarint32|ReadUint32|ReadUint8|ReadTypeID)`, `Decoder\.(Decode|decodeWith.*)`}, Bounded: []string{"the values decoded by Decoder.Decode into the variant"}})
	def(&PropDef{ID: "C18", Level: "proof", Classes: allClasses, Roots: []string{
		`TypeIDFrom.*`, `TypeID\..*`, `.*FromTypeID`, `Decoder\.(ReadTypeID|ReadDiscriminator|PeekDiscriminator)`}})
	def(&PropDef{ID: "C19", Level: "proof", Classes: allClasses, Roots: []string{`Sighash.*`, `TypeIDFromSighash`, `ToSnakeForSighash`}, Bounded: []string{"the names ToRustSnakeCase and ToPascalCase return (that they never panic is proved)"}})
	def(&PropDef{ID: "C20", Level: "proof", Classes: allClasses, Roots: []string{`.*\.(Unm|M)arshalJSON`, `lemmaJSON.*`}})
	def(&PropDef{ID: "C21", Level: "exploration", Classes: allClasses, Roots: []string{`ToRustSnakeCase|ToPascalCase|ToSnakeForSighash|newReader|capitalize|lowercase`}, Bounded: []string{"the names ToRustSnakeCase and ToPascalCase return (that they never panic is proved)"}})
	def(&PropDef{ID: "C22", Level: "proof", Classes: allClasses, Roots: []string{`Encoder\.encodeBorsh`, `MarshalBorsh`, `lemmaKeyOrder`}, Bounded: []string{"absence of panics in encodeBorsh"}})
	def(&PropDef{ID: "C23", Level: "proof", Classes: allClasses, Roots: []string{rEnc, rMar, rRefl, rDec, rUnm}, Bounded: []string{reflD}})
}

func levels() map[string]map[string]string {
	out := map[string]map[string]string{}
	for id, p := range propDefs {
		t, n := "contract-based deductive verification of the real code (go/ssa VC generation, z3/cvc5)", "Every obligation of the listed contracts is discharged for all inputs on each run, from /repo's current source; what is trusted is listed in the evidence."
		if p.Level != "proof" {
			t = "bounded check of the real code against an executable specification, with contracts proved for the functions underneath"
			n = "Bounded, not proved: " + strings.Join(p.Bounded, "; ") + " are run against an executable specification on generated types, values and inputs; the primitives they call are under proved contracts."
		} else if len(p.Bounded) > 0 {
			n += " Bounded stand-in (not proved) for: " + strings.Join(p.Bounded, "; ") + "."
		}
		if p.Note != "" {
			n += " " + p.Note
		}
		out[id] = map[string]string{"level": p.Level, "technique": t, "note": n}
	}
	return out
}
