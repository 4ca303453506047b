#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

CUR = [("cursor", "offset of the next unread byte; always within 0..len(input)", "decoder.go: Decoder.pos, Decoder.data")]
OUT = [("output", "the bytes handed so far to the caller's io.Writer, and their count", "encoder.go: Encoder.output, Encoder.count")]

prop("C01", "Reads on arbitrary bytes never panic and keep the cursor inside the input",
 "For every input buffer, every encoding and every reachable cursor position, each primitive read, peek, skip, discard, seek and reset of a decoder returns a value or an error and never panics. Afterwards the position is between 0 and the buffer length, and the position plus the remaining count equals the buffer length. The input buffer is never written to.",
 ["inputs", "histories"], "all buffers (any length and content), all cursor positions, all encodings, all arguments (including negative or huge counts), all sequences of calls",
 "Tests read a few well-formed buffers; out-of-range behaviour depends on every relation between cursor, buffer length and requested count.",
 ["decoder.go", "compact-u16.go"],
 [("bounds test before every access", "decoder.go: Read*, Peek, SkipBytes, Discard, SetPosition, readNBytes"), ("compact-u16 and varint readers report malformed data", "compact-u16.go, encoding/binary")], CUR,
 ["returned error / panic", "Decoder.Position", "Decoder.Remaining"])

prop("C02", "A read consumes exactly its item, or fails without moving the cursor",
 "A primitive read that succeeds advances the position by exactly the size of the encoded item it returned. A read, skip or seek that fails because the input is too short or malformed leaves the position unchanged (a rejected NaN, a rejected C-option flag and the length prefix of a rejected length or string are the only bytes consumed by failing reads). Peeking never moves the position.",
 ["inputs", "histories"], "all buffers, cursor positions, encodings, byte orders and counts",
 "The existing tests check positions after a few successful reads; they do not relate consumption to every input and every failure.",
 ["decoder.go", "compact-u16.go"],
 [("cursor advanced only after the bounds test, by the item width", "decoder.go: Read*, Peek*, SkipBytes, SetPosition")], CUR, ["Decoder.Position before and after"])

prop("C03", "Fixed-width integers and bools have their exact wire form and round-trip",
 "For every 8/16/32/64-bit signed or unsigned integer and both byte orders, writing emits exactly the two's-complement bytes in that order, and reading any bytes yields exactly the integer they denote; so write-then-read is the identity. Bools are written as one byte 0 or 1 and read as true exactly when the byte is non-zero.",
 ["inputs"], "all values of every width and sign, both byte orders, all encodings",
 "Tests sample a handful of values; a wrong byte or sign extension can hide in the remaining 2^64.",
 ["encoder.go", "decoder.go", "types.go"],
 [("ByteOrder.Put*/Uint* through the writers and readers", "encoder.go: WriteUint16..WriteInt64, decoder.go: ReadUint16..ReadInt64, types.go: Int64, Uint64, Bool")], OUT + CUR,
 ["bytes on the writer", "values returned by the reads"])

prop("C04", "Varints round-trip for every value and use the LEB128/zig-zag wire form",
 "Writing any machine integer as an unsigned or signed varint succeeds and emits its minimal base-128 (zig-zag for signed) form, and reading that form back returns the same value and consumes exactly those bytes. The Varint16/32 and Varuint16/32 types round-trip for all their values. A truncated or overlong varint is reported as an error.",
 ["inputs"], "all 64-bit values; all byte buffers for reading",
 "Tests use a few small values; values of 2^56 and above used to panic undetected.",
 ["encoder.go", "decoder.go", "types.go"],
 [("WriteUVarInt/WriteVarInt and ReadUvarint64/ReadVarint64 with narrowing wrappers", "encoder.go, decoder.go, types.go"), ("encoding/binary PutUvarint/Uvarint (verified from the toolchain's source)", "encoding/binary")], OUT + CUR,
 ["bytes on the writer", "values returned by the reads"])

prop("C05", "Compact-u16 is a canonical bijection and rejects everything else",
 "Every length 0..65535 is encoded as its unique shortest compact-u16 form of 1 to 3 bytes, and decoding that form (from a slice, a byte reader or a decoder) returns the length and the number of bytes used. Any other byte sequence (truncated, with a redundant zero continuation, longer than three bytes, or above 65535) is rejected with an error. A length outside 0..65535 cannot be written: the encoder returns an error and writes nothing.",
 ["inputs"], "all integers as lengths; all byte sequences as input",
 "Tests check listed vectors, not the absence of a second accepted form or of a wrong acceptance among all inputs.",
 ["compact-u16.go", "encoder.go", "decoder.go"],
 [("EncodeCompactU16Length / DecodeCompactU16 / DecodeCompactU16LengthFromByteReader", "compact-u16.go"), ("WriteCompactU16, WriteLength, ReadCompactU16", "encoder.go, decoder.go")], OUT + CUR,
 ["bytes written", "(value, size, error) returned"])

prop("C06", "128-bit integers: wire bytes, halves and numeric value always agree",
 "For every 128-bit value and byte order, the sixteen bytes written are the value in that order and reading sixteen bytes rebuilds the same value, for unsigned, signed and float128 containers. The big-integer view of an unsigned value is Hi*2^64+Lo and that of a signed value its two's-complement interpretation, whatever byte order the value is tagged with.",
 ["inputs"], "all 2^128 values, both byte orders, tagged and untagged",
 "Tests check a few constants; the halves, the sign and the tagged order interact for every value.",
 ["u128.go", "encoder.go", "decoder.go", "utils.go"],
 [("WriteUint128/WriteInt128, ReadUint128/ReadInt128/ReadFloat128", "encoder.go, decoder.go"), ("Bytes, BigInt, twosComplement, ReverseBytes, Marshal/UnmarshalWith*", "u128.go, utils.go")], OUT + CUR,
 ["bytes written", "BigInt/DecimalString", "values read"])

prop("C07", "Length prefixes, byte strings and strings round-trip in every encoding",
 "A byte string or string written with its length is the encoding's length prefix (varint for Bin, little-endian u32 for Borsh, compact-u16 for CompactU16, u64 for Rust strings) followed by exactly its bytes, and reading it back in the same encoding returns the same bytes. A prefix that promises more bytes than remain is an error and returns no data.",
 ["inputs"], "all contents, all lengths the prefix can express, three encodings; all input buffers for the reader",
 "Tests cover short strings; boundary lengths and lying prefixes are not enumerated.",
 ["encoder.go", "decoder.go", "types.go"],
 [("WriteLength/ReadLength dispatch on the encoding", "encoder.go, decoder.go"), ("WriteBytes/ReadByteSlice, WriteString/ReadString, WriteRustString/ReadRustString, HexBytes, SafeString", "encoder.go, decoder.go, types.go")], OUT + CUR,
 ["bytes written", "slice/string returned"])

prop("C08", "Option and C-option flags have one wire form; bad C-option flags are rejected",
 "Writing an option emits one byte 0 or 1, writing a C-option emits a little-endian u32 0 or 1, and reading them back returns the same flag. Reading an option treats any non-zero byte as present, while a C-option other than 0 or 1 is an error.",
 ["inputs"], "both flags, all input bytes, all encodings", "Tests check one or two flag values, not the other 2^32-2.",
 ["encoder.go", "decoder.go"], [("WriteOption/ReadOption, WriteCOption/ReadCOption", "encoder.go, decoder.go")], OUT + CUR, ["bytes written", "flag or error returned"])

prop("C09", "Floats travel bit-exactly, and Borsh never carries a NaN",
 "For every float32 and float64 and both byte orders, writing emits the IEEE-754 bits in that order and reading yields the float with exactly the bits read. In Borsh, and only in Borsh, writing a NaN is an error that writes nothing and reading any NaN bit pattern is an error.",
 ["inputs"], "all bit patterns of both widths, both byte orders, all encodings", "Tests use a few finite values; there are 2^53 NaN patterns and signed zeros/denormals to preserve.",
 ["encoder.go", "decoder.go", "types.go"], [("Write/ReadFloat32, Write/ReadFloat64 with the IsBorsh NaN test; JSONFloat64", "encoder.go, decoder.go, types.go")], OUT + CUR, ["bytes written", "float bits read", "error"])

prop("C10", "The encoder accounts for every byte and never hides a writer error",
 "After any sequence of writes the reported written count equals the number of bytes handed to the caller's writer, and each write hands over exactly the bytes of its item, in order. If the caller's writer reports an error, the write that caused it returns an error. The ByteCount functions return exactly the length of what the corresponding Marshal function returns.",
 ["inputs", "fault_sequences"], "all writes, all values, writers failing at any call", "Tests use buffers that never fail and compare counts for a few structs.",
 ["encoder.go", "interface.go"], [("toWriter/Write", "encoder.go"), ("byteCounter, *ByteCount, Marshal*", "interface.go")], OUT, ["Encoder.Written", "bytes seen by the writer", "returned error"])

prop("C11", "Borsh encoding of any supported value follows the Borsh layout",
 "Encoding a value in Borsh emits exactly: little-endian fixed-width numbers, one-byte bools, u32-length-prefixed strings, slices and maps, bare fixed arrays, struct fields in declaration order, option flags before optional fields, and for enums the ordinal byte followed by the selected variant only. Pointers encode as what they point to, a type's own marshaler is used wherever it appears (except that array and slice elements of unsigned integer kind are always plain numbers, and a marshaler on the pointer type is used only behind pointers), and unsupported kinds are errors.",
 ["inputs", "programs"], "all Go types built from supported kinds (as field, element, key, variant, behind pointers) with any tags, and all their values",
 "Tests fix a few struct types; the encoder is a reflective interpreter whose behaviour is quantified over all types.",
 ["encoder_borsh.go", "encoder.go", "tags-parser.go", "tags-options.go"], [("encodeBorsh / encodePrimitive / encodeStructBorsh / encodeComplexEnumBorsh", "encoder_borsh.go"), ("reflect_writeArrayOfUint_", "encoder.go")], OUT, ["bytes of MarshalBorsh / Encoder.Encode"])

prop("C12", "Bin and CompactU16 encoding of any supported value follow their layout",
 "Encoding a value in Bin or CompactU16 emits numbers in the field's tagged byte order (little endian by default), strings with the encoding's string prefix, slices and maps with the encoding's length prefix, bare fixed arrays, struct fields in declaration order, and the presence flag (u32 in Bin, one byte in CompactU16) before optional fields. Pointers encode as what they point to, a type's own marshaler is used wherever it appears (except that array and slice elements of unsigned integer kind are always plain numbers, and a marshaler on the pointer type is used only behind pointers), and unsupported kinds are errors.",
 ["inputs", "programs"], "all Go types built from supported kinds with any tags, and all their values, in both encodings",
 "As C11: the tests exercise a few fixed types only.",
 ["encoder_bin.go", "encoder_compact-u16.go", "encoder.go", "tags-parser.go", "tags-options.go"], [("encodeBin/encodeStructBin, encodeCompactU16/encodeStructCompactU16", "encoder_bin.go, encoder_compact-u16.go")], OUT, ["bytes of MarshalBin / MarshalCompactU16"])

prop("C13", "Borsh decoding inverts Borsh encoding",
 "For every supported type and value (non-optional pointers non-nil, no bare interfaces, slice elements of non-zero encoded size), decoding the Borsh bytes of the value into a fresh variable of that type succeeds, consumes exactly those bytes and yields an equal value, up to nil versus empty slices and maps. Bytes following the value are left unread.",
 ["inputs", "programs"], "all supported types and values, any trailing bytes",
 "Tests round-trip a few structs; nested options, enums, custom marshalers and sizeof fields combine in unbounded ways.",
 ["decoder_borsh.go", "decoder.go", "encoder_borsh.go"], [("decodeBorsh / decodeStructBorsh / deserializeComplexEnum / indirect", "decoder_borsh.go, decoder.go"), ("reflect_readArrayOfUint_", "decoder.go")], CUR, ["UnmarshalBorsh(MarshalBorsh(v))", "Decoder.Position"])

prop("C14", "Bin and CompactU16 decoding invert their encoding",
 "For every supported type and value (non-optional pointers non-nil, no bare interfaces, slice elements of non-zero encoded size), decoding the Bin or CompactU16 bytes of the value into a fresh variable of that type succeeds, consumes exactly those bytes and yields an equal value, up to nil versus empty slices and maps. Bytes following the value are left unread.",
 ["inputs", "programs"], "all supported types and values, any trailing bytes, both encodings", "As C13.",
 ["decoder_bin.go", "decoder_compact-u16.go", "decoder.go", "encoder_bin.go", "encoder_compact-u16.go"], [("decodeBin/decodeStructBin, decodeCompactU16/decodeStructCompactU16, indirect", "decoder_bin.go, decoder_compact-u16.go, decoder.go")], CUR, ["UnmarshalBin(MarshalBin(v))", "UnmarshalCompactU16(MarshalCompactU16(v))"])

prop("C15", "Decoding hostile bytes into any target returns, bounded by the input",
 "Decoding arbitrary bytes in any encoding into a variable of any supported type returns a value or an error and never panics, with the position still inside the input. A slice is never allocated for more elements than there are bytes left, so a lying length prefix or sizeof field is an error and cannot exhaust memory. A nil or non-pointer target is reported as an error.",
 ["inputs", "programs"], "all byte inputs, all supported target types, all three encodings",
 "Tests decode valid data and a few truncated buffers; hostile lengths, negative sizeof values and enum ordinals are not enumerated.",
 ["decoder.go", "decoder_bin.go", "decoder_borsh.go", "decoder_compact-u16.go"], [("length-versus-remaining tests before allocation", "decoder*.go, reflect_readArrayOfUint_"), ("enum ordinal and pointer checks", "decoder_borsh.go, decodeWithOption*")], CUR, ["returned error / panic", "length of produced slices", "Decoder.Position"])

prop("C16", "Struct tags select the same fields and options when encoding and decoding",
 "A field is left out by encoder and decoder alike exactly when it is unexported or tagged skip (`bin:\"-\"`, `bin:\"skip\"`, `borsh_skip`), and a field's optional, coption, big/little, sizeof, enum and binary_extension tags are recognised exactly when that word is present in its tag. A slice whose length comes from a sizeof field carries no prefix of its own, and trailing binary_extension fields are simply left untouched when the input has ended.",
 ["inputs", "programs"], "all struct types and all tag strings", "Tests parse a handful of tags; any tag string and any combination across fields must behave.",
 ["tags-parser.go", "tags-options.go", "decoder_bin.go", "decoder_borsh.go", "decoder_compact-u16.go", "encoder_bin.go", "encoder_borsh.go", "encoder_compact-u16.go"], [("parseFieldTag, option, sizeOfMap", "tags-parser.go, tags-options.go, *Struct* functions")], [], ["bytes produced", "fields changed by decoding"])

prop("C17", "Variant definitions map ids, names and types one-to-one and decode by id",
 "In a variant definition the i-th type is registered under the id its encoding prescribes (varint, u32 or u8 of its index, the anchor sighash of its name, or the single default id), looking up a name returns that id, and unmarshalling reads exactly the id in that encoding and then decodes exactly the type registered for it. An id (of at most 32 bits, for varints) that is not in the definition is an error, an unknown name a panic.",
 ["inputs"], "all definitions with distinct names (up to 256 types for u8 ids), all type-id encodings, all inputs", "Tests define a few variants.",
 ["variant.go"], [("NewVariantDefinition, TypeID, UnmarshalBinaryVariant, Obtain/Assign", "variant.go")], [("type tables", "typeIDToType, typeIDToName, typeNameToID", "variant.go: VariantDefinition")], ["VariantDefinition.TypeID", "BaseVariant.TypeID/Impl"])

prop("C18", "Type ids convert to and from integers and bytes without loss",
 "Converting any uint8 or uint32 (in either byte order, or as a varint) to a type id and back returns the same number, and distinct numbers give distinct ids. Building an id from at most eight bytes keeps those bytes and zero-pads the rest; an id equals a byte slice exactly when the slice is its eight bytes.",
 ["inputs"], "all uint8/uint32 values, both orders, all byte slices", "Tests convert a few constants.",
 ["variant.go", "decoder.go"], [("TypeIDFrom*, Uvarint32FromTypeID, Uint32FromTypeID, Uint8FromTypeID, Equal, ReadTypeID, PeekDiscriminator", "variant.go, decoder.go")], [], ["returned ids and numbers"])

prop("C19", "Sighashes are the first 8 bytes of sha256(namespace:name) with anchor's casing",
 "For all strings, a sighash is the first eight bytes of the SHA-256 of namespace, a colon and the name; instruction sighashes use the namespace global and the snake-case name, account sighashes the namespace account and the pascal-case name. A sighash type id holds exactly those eight bytes.",
 ["inputs"], "all namespaces and names", "Tests check listed hashes.",
 ["sighash.go", "variant.go"], [("Sighash, SighashInstruction, SighashAccount, SighashTypeID", "sighash.go")], [], ["returned bytes"])

prop("C20", "JSON forms of the number and byte types round-trip",
 "For every Int64, Uint64, HexBytes, Uint128, Int128 and Float128 value, JSON-unmarshalling what it marshals to returns the same value. 64-bit integers beyond 32 bits are emitted as quoted decimals and accepted quoted or bare. Malformed or out-of-range JSON is an error, never a panic or a silently different value.",
 ["inputs"], "all values of the types; all JSON inputs", "Tests convert a few values.",
 ["types.go", "u128.go"], [("MarshalJSON/UnmarshalJSON methods", "types.go, u128.go")], [], ["JSON text", "value after unmarshalling", "error / panic"])

prop("C21", "Case conversion yields well-formed snake and pascal names for any string",
 "For every string, snake-case conversion yields the input's letters and digits lower-cased, in order, split at exactly the boundaries of the heck algorithm and joined by single underscores; pascal-case conversion yields the same words each capitalised. Neither panics, and snake-casing is idempotent on ASCII input.",
 ["inputs"], "all strings", "Tests list examples.",
 ["heck.go"], [("ToRustSnakeCase, ToPascalCase, transform, splitIntoWords", "heck.go")], [], ["returned string"])

prop("C22", "Borsh encoding of maps is deterministic and ordered by key",
 "Borsh-encoding a map with integer, float, bool or string keys (named or not) never panics and emits the entry count followed by the entries in strictly increasing key order, so equal maps give identical bytes whatever their insertion history.",
 ["inputs", "histories", "programs"], "all maps with ordered key kinds, all insertion histories", "Map iteration order is random; a test that passes may fail on the next run, and only a few key types are used.",
 ["encoder_borsh.go"], [("sorting of MapKeys with vComp before writing", "encoder_borsh.go")], OUT, ["bytes of MarshalBorsh"])

prop("C23", "Tracing never changes what is encoded, decoded or returned",
 "With trace logging enabled, every encode and decode operation produces the same bytes, values, errors and positions as with it disabled, and never panics because of it.",
 ["configurations", "inputs"], "tracing on or off, all operations and inputs", "The test suite runs with tracing off; trace-only expressions are never executed.",
 ["encoder.go", "decoder.go", "encoder_bin.go", "encoder_borsh.go", "encoder_compact-u16.go", "decoder_bin.go", "decoder_borsh.go", "decoder_compact-u16.go", "logging.go"], [("if traceEnabled blocks", "all encoder and decoder files")], [("traceEnabled", "whether tracing is on", "logging.go")], ["bytes, values, errors with tracing on and off"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
