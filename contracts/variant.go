package bin

import (
	"encoding/binary"
	"reflect"
)

// ---------------------------------------------------------------- variant definitions

// specTypeID is the id of the i-th type of a definition.
func specTypeID(enc TypeIDEncoding, i int, name string) TypeID {
	switch enc {
	case Uvarint32TypeIDEncoding:
		return tidOf(seqSlice(specUvarint(uint64(uint32(i)))))
	case Uint32TypeIDEncoding:
		return tidOf(seqSlice(spec32(uint32(i), binary.LittleEndian)))
	case Uint8TypeIDEncoding:
		return TypeID{uint8(i)}
	case AnchorTypeIDEncoding:
		return tidOf(seqSlice(specSighash("global", name)))
	}
	return TypeID{}
}
func contract_NewVariantDefinition(typeIDEncoding TypeIDEncoding, types []VariantType) func(out *VariantDefinition) {
	requires(len(types) < 1<<32)
	panicsWhen(typeIDEncoding > NoTypeIDEncoding || typeIDEncoding == NoTypeIDEncoding && len(types) != 1)
	return func(out *VariantDefinition) {
		ensures("val", "a definition", out != nil)
		ensures("val", "keeps the encoding", g_vdEnc(out) == typeIDEncoding)
		toType, toName, toID := map[TypeID]reflect.Type{}, map[TypeID]string{}, map[string]TypeID{}
		for i := 0; i < len(types); i++ {
			id := specTypeID(typeIDEncoding, i, types[i].Name)
			toType[id] = reflect.TypeOf(types[i].Type)
			toName[id] = types[i].Name
			toID[types[i].Name] = id
		}
		ensuresMap("val", "each id leads to the type given for it", g_vdTypes(out), toType)
		ensuresMap("val", "each id leads to the name given for it", g_vdNames(out), toName)
		ensuresMap("val", "each name leads to its id", g_vdIDs(out), toID)
	}
}
func contract_VariantDefinition_TypeID(d *VariantDefinition, name string) func(id TypeID) {
	want, ok := g_vdIDs(d)[name]
	panicsWhen(!ok)
	return func(id TypeID) { ensures("val", "the id registered for the name", id == want) }
}
func contract_BaseVariant_Assign(a *BaseVariant, typeID TypeID, impl interface{}) func() {
	modifies(a)
	return func() { ensures("val", "keeps the id", a.TypeID == typeID) }
}
func contract_BaseVariant_Obtain(a *BaseVariant, def *VariantDefinition) func(typeID TypeID, typeName string, impl interface{}) {
	requires(def != nil)
	return func(typeID TypeID, typeName string, impl interface{}) {
		ensures("val", "the id", typeID == a.TypeID)
		ensures("val", "the name registered for the id", typeName == g_vdNames(def)[a.TypeID])
	}
}

// readID: the id at the cursor and how many bytes it takes; false if it cannot be read.
func readID(enc TypeIDEncoding, d []byte, p int) (TypeID, int, bool) {
	rest := d[p:]
	switch enc {
	case Uvarint32TypeIDEncoding:
		u, n := readUvarint(rest)
		return tidOf(seqSlice(specUvarint(uint64(uint32(u))))), n, n > 0
	case Uint32TypeIDEncoding:
		return tidOf(rest[:min4(len(rest))]), 4, len(rest) >= 4
	case Uint8TypeIDEncoding:
		return TypeID{byteAt(rest, 0)}, 1, len(rest) >= 1
	case AnchorTypeIDEncoding:
		return tidOf(rest), 8, len(rest) >= 8
	}
	return TypeID{}, 0, true
}
func min4(n int) int {
	if n < 4 {
		return n
	}
	return 4
}
func contract_BaseVariant_UnmarshalBinaryVariant(a *BaseVariant, decoder *Decoder, def *VariantDefinition) func(err error) {
	requires(decoder != nil && def != nil && decTarget(decoder) && g_vdEnc(def) <= NoTypeIDEncoding)
	modifies(a, g_posp(decoder), g_doptp(decoder))
	modifiesNewOnly() // in particular, not what a.Impl held before
	calleePanics()
	// one case per encoding
	switch g_vdEnc(def) {
	case Uvarint32TypeIDEncoding:
		return unmVariant(a, decoder, def, Uvarint32TypeIDEncoding)
	case Uint32TypeIDEncoding:
		return unmVariant(a, decoder, def, Uint32TypeIDEncoding)
	case Uint8TypeIDEncoding:
		return unmVariant(a, decoder, def, Uint8TypeIDEncoding)
	case AnchorTypeIDEncoding:
		return unmVariant(a, decoder, def, AnchorTypeIDEncoding)
	}
	return unmVariant(a, decoder, def, NoTypeIDEncoding)
}
func unmVariant(a *BaseVariant, decoder *Decoder, def *VariantDefinition, enc TypeIDEncoding) func(err error) {
	p0, old := g_pos(decoder), a.TypeID
	id, n, ok := readID(enc, g_data(decoder), p0)
	t := g_vdTypes(def)[id]
	u, _ := readUvarint(g_data(decoder)[p0:])
	big := enc == Uvarint32TypeIDEncoding && uint64(uint32(u)) != u
	requires(t == nil || t.Kind() != reflect.Interface && t.Kind() != reflect.Invalid) // as reflect.TypeOf makes them
	return func(err error) {
		ensures("safe", "cursor stays inside the input", decOK(decoder))
		if big {
			return // nothing is promised for a varint id of more than 32 bits
		}
		if !ok {
			ensures("val", "an id that cannot be read is an error", err != nil)
			ensures("val", "nothing is assigned without an id", a.TypeID == old)
			return
		}
		if t == nil {
			ensures("val", "an id that is not in the definition is an error", err != nil)
			ensures("adv", "only the id is read", g_pos(decoder) == p0+n)
			return
		}
		if err == nil {
			ensures("val", "the id read is assigned", a.TypeID == id)
			ensures("val", "the value has the type registered for the id", reflect.TypeOf(a.Impl) == t)
			ensures("adv", "the value is decoded from the byte after the id", ghostInt("decode.start") == p0+n)
		}
	}
}

// lemmaTypeIDs: different types of a definition have different ids, so each id leads to one type.
func lemmaTypeIDs(enc TypeIDEncoding, i, j int) {}
func contract_lemmaTypeIDs(enc TypeIDEncoding, i, j int) func() {
	requires(enc <= Uint8TypeIDEncoding && 0 <= i && i < j && j < 1<<32 && (enc != Uint8TypeIDEncoding || j < 256))
	return func() {
		ensures("val", "ids are distinct", specTypeID(enc, i, "") != specTypeID(enc, j, ""))
	}
}
