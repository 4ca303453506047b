#!/usr/bin/env python3
"""Behaviour-preserving edits: each is applied to a scratch copy of /repo, built, tested, and the contracts are verified
there; anything that does not verify is printed. refactor.py [name ...]"""
import os, re, shutil, subprocess, sys, tempfile

R = {}
def edit(name):
    def f(fn): R[name] = fn; return fn
    return f
class Tree:
    def __init__(s, d): s.d = d
    def read(s, f): return open(os.path.join(s.d, f)).read()
    def write(s, f, t): open(os.path.join(s.d, f), 'w').write(t)
    def sub(s, f, old, new, n=1):
        t = s.read(f)
        if t.count(old) < 1: raise SystemExit('no match in %s: %s' % (f, old[:60]))
        s.write(f, t.replace(old, new, n) if n else t.replace(old, new))
    def app(s, f, text): s.write(f, s.read(f) + '\n' + text + '\n')
    def func(s, f, header):
        t = s.read(f); i = t.index(header); j = t.index('\n}\n', i) + 3
        return t[i:j]

def scalar_helper(t, f, name, order):
    body = t.func(f, 'func (dec *Decoder) %s(' % name)
    i = body.index('\tcase reflect.Uint8:\n'); j = body.index('\tcase reflect.Interface:')
    cases = body[i:j]
    nb = body[:i] + body[j:]
    nb = nb.replace('\tswitch rv.Kind() {', '\tif done, err := dec.%sScalar(rv, opt); done {\n\t\treturn err\n\t}\n\tswitch rv.Kind() {' % name, 1)
    t.sub(f, body, nb)
    cases = cases.replace('\t\treturn\n', '\t\treturn true, err\n')
    t.app(f, 'func (dec *Decoder) %sScalar(rv reflect.Value, opt *option) (done bool, err error) {\n\tswitch rv.Kind() {\n%s\t}\n\treturn false, nil\n}' % (name, cases))

@edit('dec-scalar-helper-bin')
def _(t): scalar_helper(t, 'decoder_bin.go', 'decodeBin', 'opt.Order')
@edit('dec-scalar-helper-borsh')
def _(t): scalar_helper(t, 'decoder_borsh.go', 'decodeBorsh', 'LE')

@edit('dec-slice-helper-borsh')
def _(t):
    f = 'decoder_borsh.go'
    old = t.read(f)[t.read(f).index('\t\t\trv.Set(reflect.MakeSlice(rt, 0, 0))'):]
    old = old[:old.index('\t\t}\n\n\tcase reflect.Struct')]
    t.sub(f, old, '\t\t\treturn dec.decodeElemsBorsh(rt, rv, l)\n')
    t.app(f, '''func (dec *Decoder) decodeElemsBorsh(rt reflect.Type, rv reflect.Value, l int) error {
	rv.Set(reflect.MakeSlice(rt, 0, 0))
	for n := l; n > 0; n-- {
		element := reflect.New(rt.Elem())
		if err := dec.decodeBorsh(element, nil); err != nil {
			return err
		}
		rv.Set(reflect.Append(rv, element.Elem()))
	}
	return nil
}''')

@edit('dec-slice-local')
def _(t):
    f = 'decoder_bin.go'
    t.sub(f, '''			rv.Set(reflect.MakeSlice(rt, 0, 0))
			for i := 0; i < l; i++ {
				// create new element of type rt:
				element := reflect.New(rt.Elem())
				// decode into element:
				if err = dec.decodeBin(element, nil); err != nil {
					return
				}
				// append to slice:
				rv.Set(reflect.Append(rv, element.Elem()))
			}
''', '''			out := reflect.MakeSlice(rt, 0, 0)
			rv.Set(out)
			for i := 0; i < l; i++ {
				element := reflect.New(rt.Elem())
				if err = dec.decodeBin(element, nil); err != nil {
					return
				}
				out = reflect.Append(out, element.Elem())
				rv.Set(out)
			}
''')

@edit('dec-map-helper')
def _(t):
    f = 'decoder_borsh.go'
    t.sub(f, '''			key := reflect.New(rt.Key())
			err := dec.decodeBorsh(key.Elem(), nil)
			if err != nil {
				return err
			}
			val := reflect.New(rt.Elem())
			err = dec.decodeBorsh(val.Elem(), nil)
			if err != nil {
				return err
			}
			rv.SetMapIndex(key.Elem(), val.Elem())
''', '''			key, err := dec.decodeNewBorsh(rt.Key())
			if err != nil {
				return err
			}
			val, err := dec.decodeNewBorsh(rt.Elem())
			if err != nil {
				return err
			}
			rv.SetMapIndex(key, val)
''')
    t.app(f, '''func (dec *Decoder) decodeNewBorsh(rt reflect.Type) (reflect.Value, error) {
	p := reflect.New(rt).Elem()
	err := dec.decodeBorsh(p, nil)
	return p, err
}''')

@edit('dec-optional-helper')
def _(t):
    f = 'decoder_bin.go'
    t.sub(f, '''		isPresent, e := dec.ReadUint32(binary.LittleEndian)
		if e != nil {
			err = fmt.Errorf("decode: %s isPresent, %s", rv.Type().String(), e)
			return
		}

		if isPresent == 0 {
			if traceEnabled {
				zlog.Debug("decode: skipping optional value", zap.Stringer("type", rv.Kind()))
			}

			rv.Set(reflect.Zero(rv.Type()))
			return
		}
''', '''		present, e := dec.readPresence(rv)
		if e != nil || !present {
			return e
		}
''')
    t.app(f, '''func (dec *Decoder) readPresence(rv reflect.Value) (bool, error) {
	flag, err := dec.ReadUint32(binary.LittleEndian)
	if err != nil {
		return false, fmt.Errorf("decode: %s isPresent, %s", rv.Type().String(), err)
	}
	if flag != 0 {
		return true, nil
	}
	if traceEnabled {
		zlog.Debug("decode: skipping optional value", zap.Stringer("type", rv.Kind()))
	}
	rv.Set(reflect.Zero(rv.Type()))
	return false, nil
}''')

@edit('dec-struct-option-helper')
def _(t):
    for f, c in (('decoder_borsh.go', True), ('decoder_bin.go', False), ('decoder_compact-u16.go', False)):
        s = t.read(f)
        m = re.search(r'\t\toption := &option\{\n(?:.*\n)*?\t\t\}\n\n\t\tif s, ok := sizeOfMap\[structField.Name\]; ok \{\n\t\t\toption.setSizeOfSlice\(s\)\n\t\t\}\n', s)
        if not m: raise SystemExit('no match ' + f)
        s = s.replace(m.group(0), '\t\toption := fieldOption(fieldTag, structField.Name, sizeOfMap, %s)\n' % str(c).lower(), 1)
        t.write(f, s)
    t.app('decoder.go', '''func fieldOption(tag *fieldTag, name string, sizes map[string]int, coption bool) *option {
	o := &option{is_OptionalField: tag.Option, Order: tag.Order}
	if coption {
		o.is_COptionalField = tag.COption
	}
	if s, ok := sizes[name]; ok {
		o.setSizeOfSlice(s)
	}
	return o
}''')

@edit('dec-field-target-helper')
def _(t):
    f = 'decoder_bin.go'
    s = t.read(f)
    i = s.index('\t\tv := rv.Field(i)\n\t\tif !v.CanSet() {'); j = s.index('\t\toption := &option{')
    s = s[:i] + '''		v, ok, err := settableField(structField, rv.Field(i))
		if err != nil {
			return err
		}
		if !ok {
			continue
		}

''' + s[j:]
    t.write(f, s)
    t.app(f, '''func settableField(structField reflect.StructField, v reflect.Value) (reflect.Value, bool, error) {
	if v.CanSet() {
		return v, true, nil
	}
	if !v.CanAddr() {
		return v, false, fmt.Errorf("unable to decode a none setup struc field %q with type %q", structField.Name, v.Kind())
	}
	v = v.Addr()
	return v, v.CanSet(), nil
}''')

@edit('variant-one-loop')
def _(t):
    f = 'variant.go'
    s = t.read(f)
    i = s.index('\tswitch typeIDEncoding {\n\tcase Uvarint32TypeIDEncoding:\n\t\tfor i, typeDef'); j = s.index('\treturn out\n}\n\nfunc (d *VariantDefinition) TypeID')
    s = s[:i] + '''	if typeIDEncoding > NoTypeIDEncoding {
		panic(fmt.Errorf("unsupported TypeIDEncoding: %v", typeIDEncoding))
	}
	if typeIDEncoding == NoTypeIDEncoding && len(types) != 1 {
		panic(fmt.Sprintf("NoTypeIDEncoding can only have one variant type definition, got %v", len(types)))
	}
	for i, typeDef := range types {
		out.register(variantID(typeIDEncoding, i, typeDef.Name), typeDef)
	}
''' + s[j:]
    t.write(f, s)
    t.app(f, '''func variantID(enc TypeIDEncoding, i int, name string) TypeID {
	switch enc {
	case Uvarint32TypeIDEncoding:
		return TypeIDFromUvarint32(uint32(i))
	case Uint32TypeIDEncoding:
		return TypeIDFromUint32(uint32(i), binary.LittleEndian)
	case Uint8TypeIDEncoding:
		return TypeIDFromUint8(uint8(i))
	case AnchorTypeIDEncoding:
		return TypeIDFromSighash(Sighash(SIGHASH_GLOBAL_NAMESPACE, name))
	default:
		return NoTypeIDDefaultID
	}
}

func (d *VariantDefinition) register(id TypeID, typeDef VariantType) {
	d.typeIDToType[id] = reflect.TypeOf(typeDef.Type)
	d.typeIDToName[id] = typeDef.Name
	d.typeNameToID[typeDef.Name] = id
}''')

@edit('variant-register-helper')
def _(t):
    f = 'variant.go'
    s = t.read(f)
    s = re.sub(r'(?m)^\t+// FIXME: Check how the reflect.Type(?:.*\n)(?:\t+//.*\n)*', '', s)
    s = re.sub(r'\t+out\.typeIDToType\[typeID\] = reflect\.TypeOf\(typeDef\.Type\)\n\t+out\.typeIDToName\[typeID\] = typeDef\.Name\n\t+out\.typeNameToID\[typeDef\.Name\] = typeID\n', '\t\tout.register(typeID, typeDef)\n', s)
    t.write(f, s)
    t.app(f, '''func (d *VariantDefinition) register(id TypeID, typeDef VariantType) {
	d.typeNameToID[typeDef.Name] = id
	d.typeIDToName[id] = typeDef.Name
	d.typeIDToType[id] = reflect.TypeOf(typeDef.Type)
}''')

@edit('variant-read-id-helper')
def _(t):
    f = 'variant.go'
    s = t.read(f)
    i = s.index('\tvar typeID TypeID\n\tswitch def.typeIDEncoding {'); j = s.index('\ta.TypeID = typeID\n\n\ttypeGo :=')
    s = s[:i] + '\ttypeID, err := readVariantID(decoder, def.typeIDEncoding)\n\tif err != nil {\n\t\treturn err\n\t}\n' + s[j:]
    t.write(f, s)
    t.app(f, '''func readVariantID(decoder *Decoder, enc TypeIDEncoding) (TypeID, error) {
	switch enc {
	case Uvarint32TypeIDEncoding:
		val, err := decoder.ReadUvarint32()
		if err != nil {
			return TypeID{}, fmt.Errorf("uvarint32: unable to read variant type id: %s", err)
		}
		return TypeIDFromUvarint32(val), nil
	case Uint32TypeIDEncoding:
		val, err := decoder.ReadUint32(binary.LittleEndian)
		if err != nil {
			return TypeID{}, fmt.Errorf("uint32: unable to read variant type id: %s", err)
		}
		return TypeIDFromUint32(val, binary.LittleEndian), nil
	case Uint8TypeIDEncoding:
		id, err := decoder.ReadUint8()
		if err != nil {
			return TypeID{}, fmt.Errorf("uint8: unable to read variant type id: %s", err)
		}
		return TypeIDFromUint8(id), nil
	case AnchorTypeIDEncoding:
		id, err := decoder.ReadTypeID()
		if err != nil {
			return TypeID{}, fmt.Errorf("anchor: unable to read variant type id: %s", err)
		}
		return id, nil
	}
	return NoTypeIDDefaultID, nil
}''')

@edit('read-array-helper')
def _(t):
    f = 'decoder.go'
    for w in ('16', '32', '64'):
        b = t.func(f, 'func reflect_readArrayOfUint%s(' % w)
        i = b.index('\tbuf := make('); j = b.index('\tswitch rv.Kind()')
        nb = b[:i] + '\tbuf, err := d.readUint%ss(l, order)\n\tif err != nil {\n\t\treturn err\n\t}\n' % w + b[j:]
        t.sub(f, b, nb)
        t.app(f, '''func (dec *Decoder) readUint%ss(l int, order binary.ByteOrder) ([]uint%s, error) {
	buf := make([]uint%s, l)
	for i := range buf {
		n, err := dec.ReadUint%s(order)
		if err != nil {
			return nil, err
		}
		buf[i] = n
	}
	return buf, nil
}''' % (w, w, w, w))

@edit('read-array-append')
def _(t):
    t.sub('decoder.go', '''	buf := make([]uint16, l)
	for i := 0; i < l; i++ {
		n, err := d.ReadUint16(order)
		if err != nil {
			return err
		}
		buf[i] = n
	}
''', '''	buf := make([]uint16, 0, l)
	for len(buf) < l {
		n, err := d.ReadUint16(order)
		if err != nil {
			return err
		}
		buf = append(buf, n)
	}
''')

@edit('indirect-early')
def _(t):
    t.sub('decoder.go', '''		if v.Type().NumMethod() > 0 && v.CanInterface() {
			if u, ok := v.Interface().(BinaryUnmarshaler); ok {
				return u, reflect.Value{}
			}
		}

		if haveAddr {''', '''		if u := asUnmarshaler(v); u != nil {
			return u, reflect.Value{}
		}

		if haveAddr {''')
    t.app('decoder.go', '''func asUnmarshaler(v reflect.Value) BinaryUnmarshaler {
	if v.Type().NumMethod() == 0 || !v.CanInterface() {
		return nil
	}
	u, ok := v.Interface().(BinaryUnmarshaler)
	if !ok {
		return nil
	}
	return u
}''')

@edit('enum-order')
def _(t):
    t.sub('decoder_borsh.go', '''	// read enum field, if necessary
	if int(enum)+1 >= rt.NumField() {
		return errors.New("complex enum too large")
	}
	field := rv.Field(int(enum) + 1)
''', '''	idx := 1 + int(enum)
	if count := rt.NumField(); idx > count-1 {
		return errors.New("complex enum too large")
	}
	field := rv.Field(idx)
''')

@edit('struct-range')
def _(t):
    f = 'decoder_compact-u16.go'
    t.sub(f, '\tfor i := 0; i < l; i++ {\n\t\tstructField := rt.Field(i)', '\ti := -1\n\tfor {\n\t\ti++\n\t\tif i >= l {\n\t\t\tbreak\n\t\t}\n\t\tstructField := rt.Field(i)')

@edit('array-while')
def _(t):
    f = 'decoder_bin.go'
    t.sub(f, '''			for i := 0; i < l; i++ {
				if err = dec.decodeBin(rv.Index(i), nil); err != nil {
					return
				}
			}
''', '''			i := 0
			for i != l {
				e := rv.Index(i)
				err = dec.decodeBin(e, nil)
				if err != nil {
					return err
				}
				i++
			}
''')

ENC = 'Encoder.encodeBorsh,Encoder.encodeBin,Encoder.encodeStructBorsh,Encoder.encodeStructBin,Encoder.encodeComplexEnumBorsh'

@edit('enc-elems-helper')
def _(t):
    f = 'encoder_borsh.go'
    old = """			for i := 0; i < l; i++ {
				if err = e.encodeBorsh(rv.Index(i), nil); err != nil {
					return
				}
			}
"""
    t.sub(f, old, '\t\t\tif err = e.encodeElems(rv, l); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n', 0)
    t.app(f, """func (e *Encoder) encodeElems(rv reflect.Value, n int) error {
	for i := 0; i < n; i++ {
		err := e.encodeBorsh(rv.Index(i), nil)
		if err != nil {
			return err
		}
	}
	return nil
}""")

@edit('enc-option-helper')
def _(t):
    f = 'encoder_borsh.go'
    b = t.func(f, 'func (e *Encoder) encodeBorsh(')
    i = b.index('\tif opt.is_Optional() {\n'); j = b.index('\t// Reset optionality so')
    nb = b[:i] + """	absent, err := e.writePresence(rv, opt)
	if err != nil || absent {
		return err
	}
""" + b[j:]
    nb = nb.replace('isPrimitive, err := e.encodePrimitive', 'isPrimitive, err := e.encodePrimitive')
    t.sub(f, b, nb)
    t.app(f, """func (e *Encoder) writePresence(rv reflect.Value, opt *option) (absent bool, err error) {
	if opt.is_Optional() {
		if rv.IsZero() {
			return true, e.WriteOption(false)
		}
		if err := e.WriteOption(true); err != nil {
			return false, err
		}
		opt.set_Optional(false)
	}
	if opt.is_COptional() {
		if rv.IsZero() {
			return true, e.WriteCOption(false)
		}
		if err := e.WriteCOption(true); err != nil {
			return false, err
		}
		opt.set_COptional(false)
	}
	return false, nil
}""")

@edit('enc-map-helper')
def _(t):
    f = 'encoder_borsh.go'
    t.sub(f, """		keys := rv.MapKeys()
		sort.Slice(keys, vComp(keys))
""", '\t\tkeys := sortedMapKeys(rv)\n')
    t.sub(f, """		for _, mapKey := range keys {
			if err = e.Encode(mapKey.Interface()); err != nil {
				return
			}

			if err = e.Encode(rv.MapIndex(mapKey).Interface()); err != nil {
				return
			}
		}
""", """		for i := 0; i < len(keys); i++ {
			k, v := keys[i].Interface(), rv.MapIndex(keys[i]).Interface()
			if err = e.Encode(k); err != nil {
				return err
			}
			if err = e.Encode(v); err != nil {
				return err
			}
		}
""")
    t.app(f, """func sortedMapKeys(rv reflect.Value) []reflect.Value {
	keys := rv.MapKeys()
	sort.Slice(keys, vComp(keys))
	return keys
}""")

@edit('enc-struct-invert')
def _(t):
    f = 'encoder_borsh.go'
    s = t.read(f)
    i = s.index('\t\tif fieldTag.Skip {\n\t\t\tif traceEnabled {\n\t\t\t\tzlog.Debug("encode: skipping struct field with skip flag"')
    j = s.index('\t\tif fieldTag.SizeOf != "" {', i)
    s = s[:i] + """		if fieldTag.Skip || !rv.Field(i).CanInterface() {
			continue
		}
		rv := rv.Field(i)

""" + s[j:]
    t.write(f, s)

@edit('enc-slice-length-helper')
def _(t):
    f = 'encoder_bin.go'
    s = t.read(f)
    i = s.index('\t\tvar l int\n\t\tif opt.hasSizeOfSlice() {'); j = s.index('\t\tif traceEnabled {\n\t\t\tdefer', i)
    s = s[:i] + """		l, lerr := e.sliceLen(rv, opt)
		if lerr != nil {
			return lerr
		}
""" + s[j:]
    t.write(f, s)
    t.app(f, """func (e *Encoder) sliceLen(rv reflect.Value, opt *option) (int, error) {
	if opt.hasSizeOfSlice() {
		return opt.getSizeOfSlice(), nil
	}
	l := rv.Len()
	return l, e.WriteLength(l)
}""")

@edit('tags-switch')
def _(t):
    f = 'tags-parser.go'
    s = t.read(f)
    i = s.index('\tfor _, s := range strings.Split(tagStr, " ") {'); j = s.index('\t// TODO: parse other borsh tags')
    s = s[:i] + """	words := strings.Split(tagStr, " ")
	for i := 0; i < len(words); i++ {
		t.apply(words[i])
	}

""" + s[j:]
    t.write(f, s)
    t.app(f, """func (t *fieldTag) apply(s string) {
	switch s {
	case "big":
		t.Order = binary.BigEndian
	case "little":
		t.Order = binary.LittleEndian
	case "optional", "option":
		t.Option = true
	case "coption":
		t.COption = true
	case "binary_extension":
		t.BinaryExtension = true
	case "-", "skip":
		t.Skip = true
	case "enum":
		t.IsBorshEnum = true
	default:
		if strings.HasPrefix(s, "sizeof=") {
			t.SizeOf = strings.SplitN(s, "=", 2)[1]
		}
	}
}""")

@edit('tags-trimprefix')
def _(t):
    f = 'tags-parser.go'
    t.sub(f, '\t\t\ttmp := strings.SplitN(s, "=", 2)\n\t\t\tt.SizeOf = tmp[1]\n', '\t\t\tt.SizeOf = strings.TrimPrefix(s, "sizeof=")\n')
@edit('tags-slice')
def _(t):
    f = 'tags-parser.go'
    t.sub(f, '\t\t\ttmp := strings.SplitN(s, "=", 2)\n\t\t\tt.SizeOf = tmp[1]\n', '\t\t\tt.SizeOf = s[len("sizeof="):]\n')

@edit('compact-encode')
def _(t):
    f = 'compact-u16.go'
    s = t.read(f)
    i = s.index('\trem_len := ln\n'); j = s.index('\treturn nil\n', i)
    t.write(f, s[:i] + """	rest := ln
	for rest >= 0x80 {
		*buf = append(*buf, uint8(rest&0x7f)|0x80)
		rest >>= 7
	}
	*buf = append(*buf, uint8(rest))
""" + s[j:])

@edit('compact-decode-index')
def _(t):
    f = 'compact-u16.go'
    s = t.read(f)
    i = s.index('func DecodeCompactU16(bytes'); j = s.index('// DecodeCompactU16LengthFromByteReader')
    t.write(f, s[:i] + """func DecodeCompactU16(bytes []byte) (int, int, error) {
	ln := 0
	for n := 0; n < _MAX_COMPACTU16_ENCODING_LENGTH; n++ {
		if n >= len(bytes) {
			return 0, 0, io.ErrUnexpectedEOF
		}
		b := bytes[n]
		if b == 0 && n > 0 {
			return 0, 0, fmt.Errorf("alias")
		}
		ln |= int(b&0x7f) << (7 * n)
		if b < 0x80 {
			if ln > math.MaxUint16 {
				return 0, 0, fmt.Errorf("invalid length: %d", ln)
			}
			return ln, n + 1, nil
		}
	}
	return 0, 0, fmt.Errorf("byte three continues")
}

""" + s[j:])

@edit('json-helper')
def _(t):
    f = 'types.go'
    for T in ('int64', 'uint64'):
        t.sub(f, """		encodedInt, err := json.Marshal(%s(i))
		if err != nil {
			return nil, err
		}
		data = append([]byte{'"'}, encodedInt...)
		data = append(data, '"')
		return data, nil
	}
""" % T, """		return quotedJSON(%s(i))
	}
""" % T)
    t.app(f, """func quotedJSON(v interface{}) ([]byte, error) {
	encoded, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	out := make([]byte, 0, len(encoded)+2)
	out = append(out, '"')
	out = append(out, encoded...)
	return append(out, '"'), nil
}""")

@edit('json-fmt')
def _(t):
    f = 'types.go'
    t.sub(f, """		encodedInt, err := json.Marshal(uint64(i))
		if err != nil {
			return nil, err
		}
		data = append([]byte{'"'}, encodedInt...)
		data = append(data, '"')
		return data, nil
""", """		return []byte(`"` + strconv.FormatUint(uint64(i), 10) + `"`), nil
""")

@edit('json-unquote')
def _(t):
    f = 'types.go'
    for n in ('ParseInt', 'ParseUint'):
        pass
    t.sub(f, """	if data[0] == '"' {
		var s string
		if err := json.Unmarshal(data, &s); err != nil {
			return err
		}

		val, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return err
		}

		*i = Int64(val)

		return nil
	}

	var v int64
	if err := json.Unmarshal(data, &v); err != nil {
		return err
	}

	*i = Int64(v)

	return nil
""", """	var val int64
	if data[0] != '"' {
		if err := json.Unmarshal(data, &val); err != nil {
			return err
		}
	} else {
		var s string
		err := json.Unmarshal(data, &s)
		if err != nil {
			return err
		}
		if val, err = strconv.ParseInt(s, 10, 64); err != nil {
			return err
		}
	}
	*i = Int64(val)
	return nil
""")

@edit('u128-bytes')
def _(t):
    f = 'u128.go'
    t.sub(f, """	order := i.getByteOrder()
	if order == binary.LittleEndian {
		order.PutUint64(buf[:8], i.Lo)
		order.PutUint64(buf[8:], i.Hi)
		ReverseBytes(buf)
	} else {
		order.PutUint64(buf[:8], i.Hi)
		order.PutUint64(buf[8:], i.Lo)
	}
	return buf
""", """	binary.BigEndian.PutUint64(buf[:8], i.Hi)
	binary.BigEndian.PutUint64(buf[8:], i.Lo)
	return buf
""")

@edit('u128-reverse')
def _(t):
    f = 'u128.go'
    t.sub(f, """	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
""", """	n := len(s)
	for i := 0; i < n/2; i++ {
		s[i], s[n-1-i] = s[n-1-i], s[i]
	}
""")

@edit('u128-order-helper')
def _(t):
    f = 'u128.go'
    s = t.read(f)
    s = re.sub(r'\tvar order binary\.ByteOrder\n\tif dec != nil && dec\.currentFieldOpt != nil \{\n\t\torder = dec\.currentFieldOpt\.Order\n\t\} else \{\n\t\torder = i\.getByteOrder\(\)\n\t\}\n', '\torder := decOrder(dec, i.getByteOrder())\n', s)
    t.write(f, s)
    t.app(f, """func decOrder(dec *Decoder, def binary.ByteOrder) binary.ByteOrder {
	if dec == nil || dec.currentFieldOpt == nil {
		return def
	}
	return dec.currentFieldOpt.Order
}""")

@edit('int128-big')
def _(t):
    f = 'u128.go'
    t.sub(f, """	comp := byte(0x80)
	buf := Uint128(i).Bytes()

	var value *big.Int
	if (buf[0] & comp) == comp {
		buf = twosComplement(buf)
		value = (&big.Int{}).SetBytes(buf)
		value = value.Neg(value)
	} else {
		value = (&big.Int{}).SetBytes(buf)
	}
	return value
""", """	buf := Uint128(i).Bytes()
	if buf[0] < 0x80 {
		return new(big.Int).SetBytes(buf)
	}
	value := new(big.Int).SetBytes(twosComplement(buf))
	return value.Neg(value)
""")

@edit('dec-take')
def _(t):
    f = 'decoder.go'
    for w in ('16', '32'):
        t.sub(f, """	if dec.Remaining() < TypeSize.Uint%s {
		err = fmt.Errorf("uint%s required [%%d] bytes, remaining [%%d]", TypeSize.Uint%s, dec.Remaining())
		return
	}

	out = order.Uint%s(dec.data[dec.pos:])
	dec.pos += TypeSize.Uint%s
""" % (w, w, w, w, w), """	b, err := dec.take("uint%s", TypeSize.Uint%s)
	if err != nil {
		return 0, err
	}
	out = order.Uint%s(b)
""" % (w, w, w))
    t.app(f, """func (dec *Decoder) take(what string, n int) ([]byte, error) {
	if have := dec.Remaining(); have < n {
		return nil, fmt.Errorf("%s required [%d] bytes, remaining [%d]", what, n, have)
	}
	end := dec.pos + n
	b := dec.data[dec.pos:end]
	dec.pos = end
	return b, nil
}""")

@edit('dec-readlength-if')
def _(t):
    f = 'decoder.go'
    b = t.func(f, 'func (dec *Decoder) ReadLength()')
    t.sub(f, b, """func (dec *Decoder) ReadLength() (length int, err error) {
	var val uint64
	if dec.encoding == EncodingBin {
		val, err = dec.ReadUvarint64()
	} else if dec.encoding == EncodingBorsh {
		var v uint32
		v, err = dec.ReadUint32(LE)
		val = uint64(v)
	} else if dec.encoding == EncodingCompactU16 {
		var v int
		v, err = dec.ReadCompactU16()
		val = uint64(v)
	} else {
		panic(fmt.Errorf("encoding not implemented: %s", dec.encoding))
	}
	if err != nil {
		return 0, err
	}
	if val > 0x7FFF_FFFF {
		return 0, io.ErrUnexpectedEOF
	}
	return int(val), nil
}
""")

@edit('write-via-write')
def _(t):
    f = 'encoder.go'
    b = t.func(f, 'func (e *Encoder) toWriter(')
    t.sub(f, b, """func (e *Encoder) toWriter(bytes []byte) error {
	_, err := e.Write(bytes)
	return err
}
""")

@edit('sighash-builder')
def _(t):
    f = 'sighash.go'
    t.sub(f, """	data := namespace + ":" + name
	sum := sha256.Sum256([]byte(data))
	return sum[0:8]
""", """	data := make([]byte, 0, len(namespace)+1+len(name))
	data = append(data, namespace...)
	data = append(data, ':')
	data = append(data, name...)
	sum := sha256.Sum256(data)
	return sum[:8]
""")

@edit('sighash-new')
def _(t):
    f = 'sighash.go'
    t.sub(f, """	data := namespace + ":" + name
	sum := sha256.Sum256([]byte(data))
	return sum[0:8]
""", """	h := sha256.New()
	h.Write([]byte(namespace + ":" + name))
	return h.Sum(nil)[:8]
""")

@edit('typeid-direct')
def _(t):
    f = 'variant.go'
    b = t.func(f, 'func TypeIDFromUint32(')
    t.sub(f, b, """func TypeIDFromUint32(v uint32, bo binary.ByteOrder) (id TypeID) {
	bo.PutUint32(id[:4], v)
	return id
}
""")

@edit('varint-shared')
def _(t):
    f = 'encoder.go'
    t.sub(f, """	buf := make([]byte, binary.MaxVarintLen64)
	l := binary.PutUvarint(buf, uint64(v))
	return e.toWriter(buf[:l])
""", """	var buf [binary.MaxVarintLen64]byte
	return e.toWriter(buf[:binary.PutUvarint(buf[:], uint64(v))])
""")

@edit('float-nan-helper')
def _(t):
    f = 'encoder.go'
    for w in ('32', '64'):
        pass
    t.sub(f, """	if e.IsBorsh() {
		if math.IsNaN(float64(f)) {
			return errors.New("NaN float value")
		}
	}
""", """	if err := e.checkFloat(float64(f)); err != nil {
		return err
	}
""", 0)
    t.app(f, """func (e *Encoder) checkFloat(f float64) error {
	if e.IsBorsh() && f != f {
		return errors.New("NaN float value")
	}
	return nil
}""")

@edit('decode-switch')
def _(t):
    b = t.func('decoder.go', 'func (dec *Decoder) Decode(')
    print(b)

@edit('snake-via-transform')
def _(t):
    f = 'heck.go'
    b = t.func(f, 'func ToRustSnakeCase(')
    t.sub(f, b, '''func ToRustSnakeCase(s string) string {
	return transform(
		s,
		func(w string, b *strings.Builder) { b.WriteString(strings.ToLower(w)) },
		func(b *strings.Builder) { b.WriteRune('_') },
	)
}
''')

@edit('snake-mode-helper')
def _(t):
    f = 'heck.go'
    old = '''func() _WordMode {
					if unicode.IsLower(c) {
						return _Lowercase
					} else if unicode.IsUpper(c) {
						return _Uppercase
					} else {
						return mode
					}
				}()'''
    t.sub(f, old, 'nextMode(mode, c)', 0)
    t.app(f, '''func nextMode(mode _WordMode, c rune) _WordMode {
	switch {
	case unicode.IsLower(c):
		return _Lowercase
	case unicode.IsUpper(c):
		return _Uppercase
	}
	return mode
}''')

@edit('snake-runes')
def _(t):
    f = 'heck.go'
    t.sub(f, '''		char_indices := newReader(word)
		init := 0
		mode := _Boundary

		for char_indices.Move() {
			i, c := char_indices.This()
''', '''		runes := []rune(word)
		init := 0
		mode := _Boundary

		for i, c := range runes {
''', 0)
    t.sub(f, 'if next_i, next := char_indices.Peek(); next_i != -1 {', 'if next_i := i + 1; next_i < len(runes) {\n				next := runes[next_i]', 0)
    t.sub(f, 'char_indices.runes[init', 'runes[init', 0)
    s = t.read(f)
    s = s.replace('func capitalize(', 'func capitalize(', 1)
    t.write(f, s)

@edit('reader-conv')
def _(t):
    f = 'heck.go'
    t.sub(f, 'runes: splitStringByRune(s),', 'runes: []rune(s),')
    b = t.func(f, 'func splitStringByRune('); t.sub(f, b, '')
    b = t.func(f, 'func iterateStringAsRunes('); t.sub(f, b, '')

@edit('reader-append')
def _(t):
    f = 'heck.go'
    b = t.func(f, 'func splitStringByRune(')
    t.sub(f, b, '''func splitStringByRune(s string) []rune {
	res := make([]rune, 0, len(s))
	for _, r := range s {
		res = append(res, r)
	}
	return res
}
''')
    b = t.func(f, 'func iterateStringAsRunes('); t.sub(f, b, '')

@edit('lower-range')
def _(t):
    f = 'heck.go'
    b = t.func(f, 'func lowercase(')
    t.sub(f, b, '''func lowercase(s string, f *strings.Builder) {
	runes := []rune(s)
	last := len(runes) - 1
	for i, c := range runes {
		if c == 'Σ' && (i == last || runes[i+1] == 0) {
			f.WriteString("ς")
			continue
		}
		f.WriteString(strings.ToLower(string(c)))
	}
}
''')

def main():
    names = [a for a in sys.argv[1:] if not a.startswith('-fn=')] or list(R)
    fns = [a[4:] for a in sys.argv[1:] if a.startswith('-fn=')]
    env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off')
    for n in names:
        if n == 'decode-switch': continue
        d = tempfile.mkdtemp(prefix='rf-')
        try:
            subprocess.run(['cp', '-a', '/repo/.', d], check=True)
            R[n](Tree(d))
            r = subprocess.run('. /opt/vp/env.sh; export GOSUMDB=off; cd %s && go vet . >/dev/null 2>%s/vet; go test ./... 2>&1 | tail -30' % (d, d), shell=True, capture_output=True, text=True)
            if 'FAIL' in r.stdout or 'ok' not in r.stdout:
                print(n, 'DOES NOT PASS THE TESTS\n', r.stdout[-1500:], open(d + '/vet').read()[-800:]); continue
            r = subprocess.run(['/verif/bin/engine', '-repo', d] + (['-fn', fns[0]] if fns else []), capture_output=True, text=True, env=env)
            bad = [l for l in r.stdout.splitlines() if re.search(r'FAIL|fail|unsupported|no verdict|timeout|dropped', l)]
            print('==', n, 'rc', r.returncode, r.stdout.strip().splitlines()[-1:])
            for l in bad[:25]: print('   ', l[:300])
        except SystemExit as e:
            print(n, e)
        finally:
            shutil.rmtree(d)
if __name__ == '__main__': main()
