import os, importlib.util
_s = importlib.util.spec_from_file_location('b1', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m); M = _m.M
DEFS = [
 dict(id='c02-read-partial', property='C02',
  edits=[('decoder.go', '''	if d.pos+len(buf) > len(d.data) {
		return 0, io.ErrShortBuffer
	}
	numCopied''', '''	if d.pos == len(d.data) && len(buf) > 0 {
		return 0, io.ErrShortBuffer
	}
	numCopied''')],
  main=M('''	dec := bin.NewBinDecoder([]byte{1, 2, 3})
	if _, err := dec.Read(make([]byte, 4)); err == nil { fail("short read accepted") }
	if dec.Position() != 0 { fail("a failing Read moved the cursor to %d", dec.Position()) }'''),
  needs='a Read into a buffer longer than what is left, with something left', breaks='the failing Read consumes the rest of the input'),
 dict(id='c04-overlong', property='C04',
  edits=[('decoder.go', '''	l, read := binary.Varint(d.data[d.pos:])
	if read <= 0 {''', '''	l, read := binary.Varint(d.data[d.pos:])
	if read < 0 {
		// more than 64 bits: keep the low ones
		read = -read
	}
	if read == 0 {''')],
  main=M('''	dec := bin.NewBinDecoder([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f, 1})
	if v, err := dec.ReadVarint64(); err == nil { fail("overlong varint read as %d", v) }'''),
  needs='a signed varint of more than 64 bits', breaks='an overlong varint is accepted with a meaningless value'),
 dict(id='c08-coption-low', property='C08',
  edits=[('decoder.go', '''	if b > 1 {
		return false, fmt.Errorf("decode: read c-option, invalid''', '''	if uint8(b) > 1 {
		return false, fmt.Errorf("decode: read c-option, invalid''')],
  main=M('''	dec := bin.NewBorshDecoder([]byte{1, 1, 0, 0})
	if v, err := dec.ReadCOption(); err == nil { fail("flag 257 accepted as %v", v) }'''),
  needs='a C-option flag above 255 whose low byte is 0 or 1', breaks='such a flag is accepted'),
 dict(id='c12-ptr-order', property='C12',
  edits=[('encoder_bin.go', '''		return e.encodeBin(rv.Elem(), opt)''', '''		return e.encodeBin(rv.Elem(), nil)''')],
  main=M('''	v := uint32(0x01020304)
	b, err := bin.MarshalBin(&T{&v})
	if err != nil { fail("%v", err) }
	if !bytes.Equal(b, []byte{1, 2, 3, 4}) { fail("big-endian pointer field encoded as %x", b) }''', '''type T struct {
	A *uint32 `bin:"big"`
}'''),
  needs='a pointer field tagged big', breaks='the byte order is lost behind a pointer'),
 dict(id='c13-slice-element', property='C13',
  edits=[('decoder_borsh.go', '''			for i := 0; i < l; i++ {
				// create new element of type rt:
				element := reflect.New(rt.Elem())
''', '''			element := reflect.New(rt.Elem())
			for i := 0; i < l; i++ {
				if rt.Elem().Kind() == reflect.Ptr {
					element = reflect.New(rt.Elem())
				}
''')],
  main=M('''	in := [][]string{{"a"}, {}, {"b"}}
	b, err := bin.MarshalBorsh(in)
	if err != nil { fail("%v", err) }
	var out [][]string
	if err := bin.UnmarshalBorsh(&out, b); err != nil { fail("%v", err) }
	if len(out) != 3 || len(out[0]) != 1 || len(out[1]) != 0 || len(out[2]) != 1 { fail("%v became %v", in, out) }'''),
  needs='a slice of slices in which an empty element follows a non-empty one', breaks='the empty element keeps the contents of the one before it'),
 dict(id='c14-map-value', property='C14',
  edits=[('decoder_bin.go', '''		for i := 0; i < int(l); i++ {
			key := reflect.New(rt.Key())''', '''		val := reflect.New(rt.Elem())
		for i := 0; i < int(l); i++ {
			key := reflect.New(rt.Key())'''), ('decoder_bin.go', '''			val := reflect.New(rt.Elem())
			err = dec.decodeBin''', '''			err = dec.decodeBin''')],
  main=M('''	// entries in this wire order: 1 -> {2: 3}, 4 -> {}
	data := []byte{2, 1, 1, 2, 3, 4, 0}
	var out map[uint8]map[uint8]uint8
	if err := bin.UnmarshalBin(&out, data); err != nil { fail("%v", err) }
	if len(out[1]) != 1 || out[1][2] != 3 || len(out[4]) != 0 { fail("decoded %v", out) }'''),
  needs='a map of maps or pointers with an entry that does not overwrite the one before it', breaks='map values share the variable they are decoded into'),
 dict(id='c15-enum-past', property='C15',
  edits=[('decoder_borsh.go', '''	if int(enum)+1 >= rt.NumField() {''', '''	if int(enum) >= rt.NumField() {''')],
  main=M('''	var t T
	if err := bin.UnmarshalBorsh(&t, []byte{2, 0, 0}); err == nil { fail("accepted") }''', '''type T struct {
	Enum bin.BorshEnum `borsh_enum:"true"`
	A    uint8
	B    uint8
}'''),
  needs='an enum ordinal equal to the number of variants', breaks='the decoder panics (field index out of range)'),
 dict(id='c15-nil-iface', property='C15',
  edits=[('decoder.go', '''e.Kind() == reflect.Ptr && !e.IsNil() && (!decodingNull''', '''e.Kind() == reflect.Ptr && (!decodingNull''')],
  main=M('''	t := T{A: (*uint16)(nil)}
	bin.UnmarshalBin(&t, []byte{2, 0, 0})''', '''type T struct {
	A interface{}
}'''),
  needs='an interface field that already holds a nil pointer', breaks='the decoder panics (unaddressable value)'),
 dict(id='c17-stale-impl', property='C17',
  edits=[('variant.go', '''	if typeGo.Kind() == reflect.Ptr {
		a.Impl = reflect.New(typeGo.Elem()).Interface()
''', '''	if typeGo.Kind() == reflect.Ptr {
		if a.Impl == nil || reflect.TypeOf(a.Impl) != typeGo {
			a.Impl = reflect.New(typeGo.Elem()).Interface()
		}
''')],
  main=M('''	def := bin.NewVariantDefinition(bin.Uint8TypeIDEncoding, []bin.VariantType{{Name: "t", Type: (*T)(nil)}})
	v := &bin.BaseVariant{}
	if err := v.UnmarshalBinaryVariant(bin.NewBorshDecoder([]byte{0, 1, 0, 0, 0, 9}), def); err != nil { fail("%v", err) }
	first := v.Impl.(*T)
	if err := v.UnmarshalBinaryVariant(bin.NewBorshDecoder([]byte{0, 0, 0, 0, 0}), def); err != nil { fail("%v", err) }
	if len(first.A) != 1 || first.A[0] != 9 { fail("the first result changed: %v", first.A) }
	if len(v.Impl.(*T).A) != 0 { fail("the second result holds data of the first: %v", v.Impl.(*T).A) }''', '''type T struct{ A []byte }'''),
  needs='the same variant unmarshalled twice with the same pointer type', breaks='the second decode writes into the object of the first, so an earlier result changes and stale fields remain'),
 dict(id='c18-prefix-equal', property='C18',
  edits=[('variant.go', '	return bytes.Equal(vid.Bytes(), b)', '	return len(b) > 0 && bytes.HasPrefix(b, vid.Bytes())')],
  main=M('''	id := bin.TypeIDFromUint8(7)
	if id.Equal([]byte{7, 0, 0, 0, 0, 0, 0, 0, 1}) { fail("nine bytes equal an id") }'''),
  needs='a slice longer than eight bytes that starts with the id', breaks='Equal ignores what follows the eight bytes'),
 dict(id='c19-account-fast', property='C19',
  edits=[('sighash.go', '''	return Sighash(SIGHASH_ACCOUNT_NAMESPACE, ToPascalCase(name))''', '''	if name != "" && name[0] >= 'A' && name[0] <= 'Z' {
		// already in pascal case
		return Sighash(SIGHASH_ACCOUNT_NAMESPACE, name)
	}
	return Sighash(SIGHASH_ACCOUNT_NAMESPACE, ToPascalCase(name))''')],
  main=M('''	if !bytes.Equal(bin.SighashAccount("User_account"), bin.Sighash("account", "UserAccount")) { fail("User_account") }'''),
  needs='an account name that starts upper-case and is not in pascal case', breaks='its sighash is taken of the name as it is'),
 dict(id='c20-hex-prefix', property='C20',
  edits=[('types.go', '''	*t, err = hex.DecodeString(s)
	return''', '''	*t, err = hex.DecodeString(s)
	if err == hex.ErrLength {
		*t, err = hex.DecodeString("0" + s)
	}
	return''')],
  main=M('''	var h bin.HexBytes
	if err := h.UnmarshalJSON([]byte(`"abc"`)); err == nil { fail("odd-length hex accepted as %x", []byte(h)) }'''),
  needs='a hex string of odd length', breaks='malformed JSON is accepted as a padded value'),
 dict(id='c21-number', property='C21',
  edits=[('heck.go', 'return !(unicode.IsLetter(r) || unicode.IsDigit(r))', 'return !(unicode.IsLetter(r) || unicode.IsNumber(r))')],
  main=M('''	if s := bin.ToRustSnakeCase("a\\u00bdb"); s != "a_b" { fail("%q", s) }'''),
  needs='a number character that is not a decimal digit', breaks='such characters stay in the name'),
 dict(id='c22-string-keys', property='C22',
  edits=[('encoder_borsh.go', '			return a.String() < b.String()', """			if len(a.String()) > 64 && len(b.String()) > 64 {
				return a.String()[:64] < b.String()[:64]
			}
			return a.String() < b.String()""")],
  main=M('''	m := map[string]uint8{}
	pre := string(bytes.Repeat([]byte("k"), 70))
	for i := 0; i < 20; i++ { m[pre+string(rune('a'+i))] = uint8(i) }
	for n := 0; n < 20; n++ {
		b, err := bin.MarshalBorsh(m)
		if err != nil { fail("%v", err) }
		for i := 0; i < 20; i++ {
			if b[4+i*76+75] != uint8(i) { fail("entry %d holds %d", i, b[4+i*76+75]) }
		}
	}'''),
  needs='two string keys that agree on their first 64 bytes', breaks='long keys with a common prefix compare equal, so the entries follow map iteration order'),
 dict(id='c23-rust-string', property='C23',
  edits=[('encoder.go', '''	err = e.WriteUint64(uint64(len(s)), binary.LittleEndian)
	if err != nil {
		return err
	}
	if traceEnabled {
''', '''	err = e.WriteUint64(uint64(len(s)), binary.LittleEndian)
	if err != nil {
		return err
	}
	if traceEnabled {
		// keep the log valid UTF-8
		s = strings.ToValidUTF8(s, "?")
'''), ('encoder.go', '	"reflect"\n', '	"reflect"\n	"strings"\n')],
  inpkg='package bin\n\nfunc DemoTrace(on bool) { traceEnabled = on }\n',
  main=M('''	run := func(on bool) string {
		bin.DemoTrace(on)
		var buf bytes.Buffer
		err := bin.NewBinEncoder(&buf).WriteRustString("a\\xff\\xfeb")
		return fmt.Sprintf("%x %v", buf.Bytes(), err)
	}
	a, b := run(false), run(true)
	if a != b { fail("without tracing %s, with tracing %s", a, b) }'''),
  needs='tracing enabled and a string that is not valid UTF-8', breaks='with tracing on the bytes written differ from the length prefix and from the string'),
 dict(id='c10-full-write-error', property='C10',
  edits=[('encoder.go', '''	_, err = e.output.Write(bytes)
	return
''', '''	n, err := e.output.Write(bytes)
	if n == len(bytes) {
		return nil
	}
	return err
''')],
  main=M('''	err := bin.NewBorshEncoder(w{}).Encode(uint32(7))
	if err == nil { fail("the writer's error was hidden") }''', '''type w struct{}

func (w) Write(b []byte) (int, error) { return len(b), fmt.Errorf("disk full") }'''),
  needs='a writer that takes all bytes and reports an error', breaks='the error is dropped'),
 dict(id='c11-enum-bound', property='C11',
  edits=[('encoder_borsh.go', '''	if int(enum)+1 >= t.NumField() {
		return errors.New("complex enum too large")
	}
	return enc.encodeBorsh(rv.Field(int(enum)+1), nil)''', '''	variant := int(enum + 1)
	if variant >= t.NumField() {
		return errors.New("complex enum too large")
	}
	return enc.encodeBorsh(rv.Field(variant), nil)''')],
  main=M('''	if b, err := bin.MarshalBorsh(&T{Enum: 255, A: 3}); err == nil { fail("ordinal 255 of one variant encoded as %x", b) }''', '''type T struct {
	Enum bin.BorshEnum `borsh_enum:"true"`
	A    uint16
}'''),
  needs='an enum ordinal of 255', breaks='255+1 wraps to 0 and the ordinal itself is encoded as the variant'),
 dict(id='c13-enum-bound', property='C13',
  edits=[('decoder_borsh.go', '''	field := rv.Field(int(enum) + 1)''', '''	field := rv.Field(int(enum)&0x7f + 1)''')],
  main=M('''	rt := make([]byte, 0)
	_ = rt
	fs := []reflect.StructField{{Name: "Enum", Type: reflect.TypeOf(bin.BorshEnum(0)), Tag: `borsh_enum:"true"`}}
	for i := 0; i < 130; i++ {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("V%d", i), Type: reflect.TypeOf(uint8(0))})
	}
	v := reflect.New(reflect.StructOf(fs))
	v.Elem().Field(0).SetUint(129)
	v.Elem().Field(130).SetUint(7)
	b, err := bin.MarshalBorsh(v.Interface())
	if err != nil { fail("%v", err) }
	o := reflect.New(v.Elem().Type())
	if err := bin.UnmarshalBorsh(o.Interface(), b); err != nil { fail("%v", err) }
	if !reflect.DeepEqual(o.Interface(), v.Interface()) { fail("variant 129 decoded into another field") }''', imports='reflect'),
  needs='an enum with more than 128 variants', breaks='variants from 128 on are decoded into the wrong field'),
 dict(id='c01-peek-negative', property='C01',
  edits=[('decoder.go', '''	if n < 0 || n > 0x7FFF_FFFF {
		return nil, fmt.Errorf("invalid length n: %v", n)
	}
	if reader.pos+n > len(reader.data) {''', '''	if n > 0x7FFF_FFFF {
		return nil, fmt.Errorf("invalid length n: %v", n)
	}
	if reader.pos+n < 0 || reader.pos+n > len(reader.data) {''')],
  main=M('''	dec := bin.NewBinDecoder([]byte{1, 2, 3})
	if err := dec.SkipBytes(2); err != nil { fail("%v", err) }
	if _, err := dec.ReadNBytes(-1); err == nil { fail("accepted") }'''),
  needs='a negative count no larger than the position', breaks='reading a negative count panics (slice bounds) instead of returning an error'),
 dict(id='c16-borsh-skip', property='C16',
  edits=[('tags-parser.go', '''	for _, s := range strings.Split(tagStr, " ") {
		if strings.HasPrefix''', '''	for _, s := range strings.Split(tagStr, " ") {
		s = strings.TrimRight(s, ",;")
		if strings.HasPrefix''')],
  main=M('''	b, err := bin.MarshalBorsh(T{1})
	if err != nil { fail("%v", err) }
	if len(b) != 1 { fail("%x", b) }''', '''type T struct {
	A uint8 `bin:"skip,"`
}'''),
  needs='a tag word followed by punctuation', breaks='the word is recognised although it is not present as a word of the tag'),
 dict(id='c09-borsh-f32-signal', property='C09',
  edits=[('decoder.go', '''	n := order.Uint32(dec.data[dec.pos:])
	out = math.Float32frombits(n)
	dec.pos += TypeSize.Float32''', '''	n := order.Uint32(dec.data[dec.pos:])
	if n&0x7f800000 == 0 {
		// flush denormals like the on-chain VM does
		n &= 0x80000000
	}
	out = math.Float32frombits(n)
	dec.pos += TypeSize.Float32''')],
  main=M('''	dec := bin.NewBinDecoder([]byte{1, 0, 0, 0})
	f, err := dec.ReadFloat32(bin.LE)
	if err != nil || f == 0 { fail("%v %v", f, err) }'''),
  needs='a denormal float32', breaks='denormals are read as zero'),
 dict(id='c07-empty-nil', property='C07',
  edits=[('decoder.go', '''	if len(dec.data) < dec.pos+length {
		return nil, fmt.Errorf("byte array''', '''	if len(dec.data) < length {
		return nil, fmt.Errorf("byte array''')],
  main=M('''	buf := make([]byte, 3, 64)
	buf[0] = 3
	buf[1] = 9
	buf[2] = 9
	dec := bin.NewBinDecoder(buf)
	if b, err := dec.ReadByteSlice(); err == nil { fail("3 bytes promised, 2 left, got %x", b) }'''),
  needs='a prefix that promises more than what is left but no more than the whole input', breaks='the length check forgets the position: bytes beyond the input are returned, or the read panics'),
 dict(id='c03-bool-one', property='C03',
  edits=[('decoder.go', '''		err = fmt.Errorf("readBool, %s", err)
	}
	out = b != 0''', '''		err = fmt.Errorf("readBool, %s", err)
	}
	out = b&1 != 0''')],
  main=M('''	v, err := bin.NewBinDecoder([]byte{2}).ReadBool()
	if err != nil || !v { fail("2 read as %v %v", v, err) }'''),
  needs='a bool byte that is even and not zero', breaks='such a byte reads as false'),


 dict(id='c05-reader-truncated', property='C05',
  edits=[('compact-u16.go', '''		elemByte, err := reader.ReadByte()
		if err != nil {
			return 0, err
		}''', '''		elemByte, err := reader.ReadByte()
		if err == io.EOF && ln > 0x2000 {
			// the zero high byte may be left out
			break
		}
		if err != nil {
			return 0, err
		}''')],
  main=M('''	if n, err := bin.DecodeCompactU16LengthFromByteReader(bytes.NewReader([]byte{0x81, 0xc1})); err == nil { fail("truncated length accepted as %d", n) }'''),
  needs='a truncated form with a large low part, read from a byte reader', breaks='a truncated length is accepted'),
]
