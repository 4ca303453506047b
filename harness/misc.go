package main

// C17 variants, C18 type ids, C19 sighashes, C20 JSON, C21 case conversion.

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	. "github.com/gagliardetto/binary"
)

// ---------------------------------------------------------------- C21 / C19: an independent statement of heck's casing

// heckWords splits s into the words of the heck algorithm (the underscore is no letter or digit, so a run of letters and
// digits never contains one). A cut before character i resumes with i already looked at.
func heckWords(s string) [][]rune {
	var out [][]rune
	rs := []rune(s)
	var runs [][]rune
	var cur []rune
	for _, c := range rs {
		if unicode.IsLetter(c) || unicode.IsDigit(c) {
			cur = append(cur, c)
		} else if cur != nil {
			runs = append(runs, cur)
			cur = nil
		}
	}
	if cur != nil {
		runs = append(runs, cur)
	}
	for _, r := range runs {
		init, mode := 0, 'B'
		for i := range r {
			if i == len(r)-1 {
				out = append(out, r[init:])
				break
			}
			m := mode
			if unicode.IsLower(r[i]) {
				m = 'l'
			} else if unicode.IsUpper(r[i]) {
				m = 'u'
			}
			switch {
			case m == 'l' && unicode.IsUpper(r[i+1]):
				out = append(out, r[init:i+1])
				init, mode = i+1, 'B'
			case mode == 'u' && unicode.IsUpper(r[i]) && unicode.IsLower(r[i+1]):
				out = append(out, r[init:i])
				init, mode = i, 'B'
			default:
				mode = m
			}
		}
	}
	return out
}
func refSnake(s string) string {
	var ws []string
	for _, w := range heckWords(s) {
		ws = append(ws, strings.ToLower(string(w)))
	}
	return strings.Join(ws, "_")
}
func refPascal(s string) string {
	var b strings.Builder
	for _, w := range heckWords(s) {
		b.WriteString(strings.ToUpper(string(w[:1])))
		for i, c := range w[1:] {
			if c == 'Σ' && i == len(w)-2 {
				b.WriteString("ς")
			} else {
				b.WriteString(strings.ToLower(string(c)))
			}
		}
	}
	return b.String()
}
func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}
func checkCase(c *Ctx, s string) {
	var sn, pa, sg, sn2 string
	c.NoPanic("case conversion", func() {
		sn, pa, sg = ToRustSnakeCase(s), ToPascalCase(s), ToSnakeForSighash(s)
		sn2 = ToRustSnakeCase(sn)
	})
	if w := refSnake(s); sn != w {
		c.Fail("snake case of %q is %q, want %q", s, sn, w)
	}
	if sg != sn {
		c.Fail("ToSnakeForSighash(%q)=%q, want %q", s, sg, sn)
	}
	if w := refPascal(s); pa != w {
		c.Fail("pascal case of %q is %q, want %q", s, pa, w)
	}
	if isASCII(s) && sn2 != sn {
		c.Fail("snake case of %q is not idempotent: %q then %q", s, sn, sn2)
	}
}
func caseOnce() Section {
	return Section{Name: "all short strings", Once: true, Run: func(c *Ctx) {
		for _, al := range []struct {
			a string
			n int
		}{{"aB1_", 7}, {"aAbB1 ", 5}, {"abAB01_-. é", 4}, {"aΣσςé世Aǅ", 4}} {
			rs := []rune(al.a)
			buf := make([]rune, 0, 8)
			var rec func(n int)
			rec = func(n int) {
				s := string(buf)
				checkCase(c, s)
				c.Count(1)
				if n == 0 {
					return
				}
				for _, r := range rs {
					buf = append(buf, r)
					rec(n - 1)
					buf = buf[:len(buf)-1]
				}
			}
			c.Case(fmt.Sprintf("all strings of at most %d characters over %q", al.n, al.a))
			rec(al.n)
		}
		c.Case("every rune alone and between letters")
		for r := rune(0); r <= 0x2FFF; r++ {
			for _, f := range []string{"%c", "a%c", "A%cb", "ab%cD", "%c%[1]c"} {
				checkCase(c, fmt.Sprintf(f, r))
				c.Count(1)
			}
		}
		for _, s := range c.Lits.Strings {
			c.Case("literal " + s)
			checkCase(c, s)
		}
		for _, s := range c.HintStrs {
			c.Case("hint " + s)
			checkCase(c, s)
		}
	}}
}
func (c *Ctx) Name() string {
	r := c.R
	switch r.Intn(6) {
	case 0:
		return c.Str()
	case 1:
		n := r.Intn(12)
		var b strings.Builder
		for i := 0; i < n; i++ {
			x := rune(r.Intn(0x2000))
			if r.Intn(20) == 0 {
				x = rune(r.Intn(0x20000))
			}
			if !utf8.ValidRune(x) {
				x = 'x'
			}
			b.WriteRune(x)
		}
		return b.String()
	}
	n := r.Intn(40)
	if r.Intn(10) == 0 {
		n = r.Intn(300)
	}
	al := []rune([]string{"abcXYZ019_", "aB", "aB1", "aAéÉΣσ_9", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_- ."}[r.Intn(5)])
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(al[r.Intn(len(al))])
	}
	return b.String()
}
func caseSection() Section {
	return Section{Name: "random strings", Run: func(c *Ctx) {
		for i := 0; i < 50; i++ {
			s := c.Name()
			c.CaseL(s, func() string { return fmt.Sprintf("%q", s) })
			checkCase(c, s)
		}
	}}
}
func refSighash(ns, name string) []byte {
	h := sha256.New()
	h.Write([]byte(ns))
	h.Write([]byte{':'})
	h.Write([]byte(name))
	return h.Sum(nil)[:8]
}
func checkSig(c *Ctx, ns, name string) {
	c.CaseL(ns+"\x00"+name, func() string { return fmt.Sprintf("namespace %q name %q", ns, name) })
	var a, b, d []byte
	var id, id2 TypeID
	c.NoPanic("sighash", func() {
		a, b, d = Sighash(ns, name), SighashInstruction(name), SighashAccount(name)
		id = SighashTypeID(ns, name)
		id2 = TypeIDFromSighash(a)
	})
	c.Check(bytes.Equal(a, refSighash(ns, name)), "Sighash = %x, want %x", a, refSighash(ns, name))
	c.Check(bytes.Equal(b, refSighash("global", refSnake(name))), "SighashInstruction = %x, want %x", b, refSighash("global", refSnake(name)))
	c.Check(bytes.Equal(d, refSighash("account", refPascal(name))), "SighashAccount = %x, want %x", d, refSighash("account", refPascal(name)))
	c.Check(bytes.Equal(id[:], a) && id == id2, "SighashTypeID = %x, TypeIDFromSighash = %x, want %x", id, id2, a)
}
func sigOnce() Section {
	return Section{Name: "named strings", Once: true, Run: func(c *Ctx) {
		ns := []string{"", "global", "account", "state", "event", ":", "a:b", "é"}
		names := append([]string{"", "a", "A", "initialize", "Initialize", "createUserAccount", "HTTPServer", "a:b", ":", " x ", "snake_case", "v2Swap", "Swap2", "ÉcoleΣ", strings.Repeat("ab", 40), strings.Repeat("aB", 700)}, c.Lits.Strings...)
		names = append(names, c.HintStrs...)
		for _, n := range ns {
			for _, m := range names {
				checkSig(c, n, m)
			}
		}
		// every length around the hash block boundaries
		for l := 0; l < 300; l++ {
			checkSig(c, "global", strings.Repeat("k", l))
			checkSig(c, strings.Repeat("n", l), "x")
		}
	}}
}
func sigSection() Section {
	return Section{Name: "random strings", Run: func(c *Ctx) {
		for i := 0; i < 30; i++ {
			checkSig(c, c.Str(), c.Name())
			checkSig(c, "global", c.Name())
		}
	}}
}

// ---------------------------------------------------------------- C18

func padTID(b []byte) (t TypeID) { copy(t[:], b); return }
func checkTID32(c *Ctx, v uint32) {
	for _, o := range orders {
		id := TypeIDFromUint32(v, o)
		var w [8]byte
		o.PutUint32(w[:], v)
		if id != TypeID(w) {
			c.Fail("TypeIDFromUint32(%#x, %v) = %x, want %x", v, o, id, w)
		}
		if g := Uint32FromTypeID(id, o); g != v {
			c.Fail("Uint32FromTypeID(TypeIDFromUint32(%#x, %v)) = %#x", v, o, g)
		}
		if o == binary.LittleEndian {
			if g := id.Uint32(); g != v {
				c.Fail("TypeID.Uint32 of %x = %#x", id, g)
			}
		}
	}
	id := TypeIDFromUvarint32(v)
	if id != padTID(specUvarint(uint64(v))) {
		c.Fail("TypeIDFromUvarint32(%#x) = %x, want the varint %x", v, id, []byte(specUvarint(uint64(v))))
	}
	if g, h := Uvarint32FromTypeID(id), id.Uvarint32(); g != v || h != v {
		c.Fail("Uvarint32FromTypeID(TypeIDFromUvarint32(%#x)) = %#x, Uvarint32() = %#x", v, g, h)
	}
	if v < 256 {
		id := TypeIDFromUint8(uint8(v))
		if id != (TypeID{byte(v)}) || Uint8FromTypeID(id) != byte(v) || id.Uint8() != byte(v) {
			c.Fail("TypeIDFromUint8(%d) = %x, back %d %d", v, id, Uint8FromTypeID(id), id.Uint8())
		}
	}
}
func checkTIDBytes(c *Ctx, b []byte) {
	c.CaseL(string(b), func() string { return "bytes " + hx(b) })
	in := cp(b)
	id := TypeIDFromBytes(b)
	id2 := TypeIDFromSighash(b)
	want := padTID(in)
	if len(b) <= 8 {
		c.Check(id == want && id2 == want, "TypeIDFromBytes = %x, TypeIDFromSighash = %x, want %x", id, id2, want)
	}
	c.Check(bytes.Equal(in, b), "the input was changed")
	c.Check(bytes.Equal(id.Bytes(), id[:]), "Bytes() = %x", id.Bytes())
	c.Check(id.Equal(id[:]), "an id differs from its own bytes")
	for i := 0; i < 8; i++ {
		x := cp(id[:])
		x[i] ^= 1 << uint(c.R.Intn(8))
		c.Check(!id.Equal(x), "%x equals %x", id, x)
		c.Check(!id.Equal(id[:i]), "%x equals its prefix %x", id, id[:i])
	}
	c.Check(!id.Equal(nil) && !id.Equal(append(cp(id[:]), 0)), "%x equals a shorter or longer slice", id)
	for _, enc := range encs {
		d := NewDecoderWithEncoding(b, enc)
		p, err := d.PeekDiscriminator()
		c.Check((err == nil) == (len(b) >= 8) && d.Position() == 0, "PeekDiscriminator err=%v at %d of %d bytes", err, d.Position(), len(b))
		r, err2 := d.ReadTypeID()
		c.Check((err2 == nil) == (len(b) >= 8), "ReadTypeID err=%v of %d bytes", err2, len(b))
		d2 := NewDecoderWithEncoding(b, enc)
		r2, err3 := d2.ReadDiscriminator()
		c.Check((err3 == nil) == (len(b) >= 8), "ReadDiscriminator err=%v of %d bytes", err3, len(b))
		if len(b) >= 8 {
			w := padTID(b[:8])
			c.Check(p == w && r == w && r2 == w && d.Position() == 8 && d2.Position() == 8, "peek %x read %x disc %x, want %x (pos %d)", p, r, r2, w, d.Position())
		}
	}
}
func tidOnce() Section {
	return Section{Name: "integers", Once: true, Run: func(c *Ctx) {
		c.Case("all uint8 and uint16, every 65521st uint32")
		for v := uint32(0); v < 1<<16; v++ {
			checkTID32(c, v)
		}
		for v := uint64(0); v < 1<<32; v += 65521 {
			checkTID32(c, uint32(v))
		}
		c.Count(1<<16 + 65551)
		for _, v := range c.Ints() {
			c.Case(fmt.Sprintf("uint32 %#x", uint32(v)))
			checkTID32(c, uint32(v))
		}
		for n := 0; n <= 10; n++ {
			for k := 0; k < 20; k++ {
				checkTIDBytes(c, c.Bytes(n))
			}
		}
		for _, b := range c.HintBufs {
			checkTIDBytes(c, b)
		}
	}}
}
func tidSection() Section {
	return Section{Name: "random ids", Run: func(c *Ctx) {
		for i := 0; i < 50; i++ {
			v := uint32(c.U64())
			c.CaseL(fmt.Sprint(v), func() string { return fmt.Sprintf("uint32 %#x", v) })
			checkTID32(c, v)
			checkTIDBytes(c, c.Bytes(c.R.Intn(11)))
		}
	}}
}

// ---------------------------------------------------------------- C17

type variantDef struct {
	enc   TypeIDEncoding
	types []VariantType
	def   *VariantDefinition
}

var tidEncs = []TypeIDEncoding{Uvarint32TypeIDEncoding, Uint32TypeIDEncoding, Uint8TypeIDEncoding, AnchorTypeIDEncoding, NoTypeIDEncoding}

// wireID is the id of the i-th type and its bytes on the wire.
func (v *variantDef) wireID(i int) (TypeID, []byte) {
	switch v.enc {
	case Uvarint32TypeIDEncoding:
		b := specUvarint(uint64(i))
		return padTID(b), b
	case Uint32TypeIDEncoding:
		b := []byte{byte(i), byte(i >> 8), byte(i >> 16), byte(i >> 24)}
		return padTID(b), b
	case Uint8TypeIDEncoding:
		return padTID([]byte{byte(i)}), []byte{byte(i)}
	case AnchorTypeIDEncoding:
		b := refSighash("global", v.types[i].Name)
		return padTID(b), b
	}
	return TypeID{}, nil
}
func variantTypeOK(t reflect.Type) bool {
	return !strings.Contains(t.String(), "interface")
}
func newVariantDef(c *Ctx, e TypeIDEncoding, n int) *variantDef {
	v := &variantDef{enc: e}
	seen := map[string]bool{}
	for len(v.types) < n {
		name := c.Name()
		if n > 20 {
			name = fmt.Sprintf("%s_%d", name, len(v.types))
		}
		if seen[name] {
			name = fmt.Sprintf("%s#%d", name, len(v.types))
		}
		if seen[name] {
			continue
		}
		t := c.PoolType()
		if n > 20 {
			t = scalarTypes[c.R.Intn(len(scalarTypes))]
		}
		for !variantTypeOK(t) {
			t = c.PoolType()
		}
		if c.R.Intn(3) == 0 && t.Kind() != reflect.Ptr && t.Kind() != reflect.Interface {
			t = reflect.PtrTo(t)
		}
		seen[name] = true
		v.types = append(v.types, VariantType{Name: name, Type: reflect.Zero(t).Interface()})
	}
	c.NoPanic("NewVariantDefinition", func() { v.def = NewVariantDefinition(e, append([]VariantType{}, v.types...)) })
	return v
}
func (v *variantDef) String() string {
	var s []string
	for i, t := range v.types {
		if i == 6 {
			s = append(s, fmt.Sprintf("... %d types", len(v.types)))
			break
		}
		s = append(s, fmt.Sprintf("%q: %T", t.Name, t.Type))
	}
	return fmt.Sprintf("id encoding %d {%s}", v.enc, strings.Join(s, ", "))
}
func checkVariant(c *Ctx, v *variantDef, i int, enc Encoding) {
	id, wire := v.wireID(i)
	name := v.types[i].Name
	var got TypeID
	c.NoPanic("TypeID", func() { got = v.def.TypeID(name) })
	c.Check(got == id, "TypeID(%q) = %x, want %x", name, got, id)
	t := reflect.TypeOf(v.types[i].Type)
	c.enc = enc
	vt := t
	if t.Kind() == reflect.Ptr {
		vt = t.Elem()
	}
	val := c.Val(t, 2)
	p, ok := specEnc(enc, val, defOpt)
	if !ok {
		return
	}
	body, ok := p.flat()
	if !ok {
		return
	}
	c.CaseL(fmt.Sprintf("%d %d %d %x", v.enc, i, enc, body), func() string {
		return fmt.Sprintf("%v: %v value of variant %d (%q), id [%x] body [%s]", v, enc, i, name, wire, hx(body))
	})
	pre := c.Bytes(c.R.Intn(3))
	data := append(append(cp(pre), wire...), body...)
	end := len(data)
	data = append(data, 0xa5, 0x5a)[:end+c.R.Intn(3)]
	if hasExt(vt, 0) {
		data = data[:end]
	}
	d := NewDecoderWithEncoding(data, enc)
	d.SkipBytes(uint(len(pre)))
	var bv BaseVariant
	var err error
	c.NoPanic("UnmarshalBinaryVariant", func() { err = bv.UnmarshalBinaryVariant(d, v.def) })
	c.Check(err == nil, "UnmarshalBinaryVariant: %v", err)
	c.Check(bv.TypeID == id, "the variant's id is %x, want %x", bv.TypeID, id)
	c.Check(reflect.TypeOf(bv.Impl) == t, "decoded a %T, want %v", bv.Impl, t)
	g := reflect.ValueOf(bv.Impl)
	if s := same(enc, val, g, defOpt); s != "" {
		c.Fail("the decoded variant differs: %s", s)
	}
	c.Check(int(d.Position()) == end, "consumed up to %d, want %d", d.Position(), end)
	oid, oname, oimpl := bv.Obtain(v.def)
	c.Check(oid == id && oname == name, "Obtain gives %x %q, want %x %q", oid, oname, id, name)
	c.Check(reflect.TypeOf(oimpl) == t, "Obtain gives a %T", oimpl)
	// the same variant variable used again: the earlier result stays as it was and nothing of it shows in the new one
	if c.R.Intn(2) == 0 {
		before := showDeepSorted(reflect.ValueOf(bv.Impl))
		first := bv.Impl
		val2 := c.Val(t, 2)
		if c.R.Intn(2) == 0 && !hasPtr(vt) {
			val2 = reflect.New(vt).Elem()
			if t.Kind() == reflect.Ptr {
				val2 = val2.Addr()
			}
		}
		if p2, ok := specEnc(enc, val2, defOpt); ok {
			if body2, ok := p2.flat(); ok {
				d := NewDecoderWithEncoding(append(cp(wire), body2...), enc)
				c.NoPanic("UnmarshalBinaryVariant", func() { err = bv.UnmarshalBinaryVariant(d, v.def) })
				c.Check(err == nil, "UnmarshalBinaryVariant into the same variable: %v", err)
				if s := same(enc, val2, reflect.ValueOf(bv.Impl), defOpt); s != "" {
					c.Fail("decoding [%x] into the same variable: %s", append(cp(wire), body2...), s)
				}
				after := showDeepSorted(reflect.ValueOf(first))
				c.Check(before == after, "decoding again changed the earlier result from %s to %s", before, after)
			}
		}
	}
	// truncated ids and bodies
	for cut := 0; cut < len(wire); cut++ {
		d := NewDecoderWithEncoding(append(cp(pre), wire[:cut]...), enc)
		d.SkipBytes(uint(len(pre)))
		var bv BaseVariant
		c.NoPanic("UnmarshalBinaryVariant", func() { err = bv.UnmarshalBinaryVariant(d, v.def) })
		c.Check(err != nil, "accepted the truncated id [%x]", wire[:cut])
	}
	if len(body) > 0 && !hasExt(vt, 0) {
		d := NewDecoderWithEncoding(data[:end-1], enc)
		d.SkipBytes(uint(len(pre)))
		var bv BaseVariant
		c.NoPanic("UnmarshalBinaryVariant", func() { err = bv.UnmarshalBinaryVariant(d, v.def) })
		c.Check(err != nil, "accepted a truncated body")
	}
}
func checkUnknown(c *Ctx, v *variantDef) {
	name := c.Name() + "?"
	for _, t := range v.types {
		if t.Name == name {
			return
		}
	}
	c.Check(panics(func() { v.def.TypeID(name) }), "TypeID of the unknown name %q did not panic", name)
	if v.enc == NoTypeIDEncoding {
		return
	}
	for k := 0; k < 4; k++ {
		var wire []byte
		n := uint64(len(v.types)) + uint64(c.R.Intn(3))
		if k > 0 {
			n += uint64(uint32(c.U64()))
		}
		switch v.enc {
		case Uvarint32TypeIDEncoding:
			if n > math.MaxUint32 {
				continue
			}
			wire = specUvarint(n)
		case Uint32TypeIDEncoding:
			if n > math.MaxUint32 {
				continue
			}
			wire = []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
		case Uint8TypeIDEncoding:
			if n > 255 {
				continue
			}
			wire = []byte{byte(n)}
		case AnchorTypeIDEncoding:
			wire = c.Bytes(8)
			known := false
			for i := range v.types {
				_, w := v.wireID(i)
				known = known || bytes.Equal(w, wire)
			}
			if known {
				continue
			}
		}
		data := append(cp(wire), c.Bytes(c.R.Intn(40))...)
		c.CaseL(fmt.Sprintf("unknown %d %x", v.enc, wire), func() string { return fmt.Sprintf("%v, unknown id [%x]", v, wire) })
		var err error
		var bv BaseVariant
		c.NoPanic("UnmarshalBinaryVariant", func() { err = bv.UnmarshalBinaryVariant(NewDecoderWithEncoding(data, encs[c.R.Intn(3)]), v.def) })
		c.Check(err != nil, "accepted the unknown id [%x]: %T", wire, bv.Impl)
	}
}
func variantsOnce() Section {
	return Section{Name: "large definitions", Once: true, Run: func(c *Ctx) {
		for _, e := range tidEncs[:4] {
			n := 256
			if e == Uvarint32TypeIDEncoding || e == Uint32TypeIDEncoding {
				n = 16500
			}
			c.Case(fmt.Sprintf("definition of %d types, id encoding %d", n, e))
			v := newVariantDef(c, e, n)
			for i := 0; i < n; i++ {
				id, _ := v.wireID(i)
				if g := v.def.TypeID(v.types[i].Name); g != id {
					c.Fail("TypeID of type %d is %x, want %x", i, g, id)
				}
				c.Count(1)
				if n < 300 || i%53 == 0 || i < 300 || i > 16380 && i < 16390 {
					checkVariant(c, v, i, encs[i%3])
				}
			}
			checkUnknown(c, v)
		}
		for _, n := range []int{0, 2, 3} {
			c.Case(fmt.Sprintf("definition without ids of %d types", n))
			ts := make([]VariantType, n)
			for i := range ts {
				ts[i] = VariantType{Name: fmt.Sprint("n", i), Type: uint8(0)}
			}
			c.Check(panics(func() { NewVariantDefinition(NoTypeIDEncoding, ts) }), "a definition without ids of %d types was accepted", n)
		}
		c.Case("unsupported id encoding")
		c.Check(panics(func() { NewVariantDefinition(TypeIDEncoding(77), []VariantType{{"a", uint8(0)}}) }), "accepted")
		for _, e := range tidEncs[:4] {
			c.Case(fmt.Sprintf("empty definition, id encoding %d", e))
			v := newVariantDef(c, e, 0)
			checkUnknown(c, v)
		}
	}}
}
func variantsSection() Section {
	return Section{Name: "random definitions", Run: func(c *Ctx) {
		e := tidEncs[c.R.Intn(len(tidEncs))]
		n := 1 + c.R.Intn(6)
		if e == NoTypeIDEncoding {
			n = 1
		}
		v := newVariantDef(c, e, n)
		for i := range v.types {
			checkVariant(c, v, i, encs[c.R.Intn(3)])
		}
		checkUnknown(c, v)
		var bv BaseVariant
		id := padTID(c.Bytes(8))
		bv.Assign(id, n)
		c.Case("Assign")
		c.Check(bv.TypeID == id && bv.Impl == n, "Assign stored %x %v", bv.TypeID, bv.Impl)
	}}
}

// ---------------------------------------------------------------- C20

func u128Dec(hi, lo uint64) string {
	b := new(big.Int).SetUint64(hi)
	b.Lsh(b, 64)
	return b.Or(b, new(big.Int).SetUint64(lo)).String()
}

// wrapped in the ways a JSON document can hold a value
type jdoc struct {
	I  Int64
	U  Uint64
	H  HexBytes
	A  Uint128
	S  Int128
	F  Float128
	PI *Int64
	PU *Uint64
	PA *Uint128
	L  []Uint64
	M  map[string]Int64
	LA []Int128
}

func checkJSONInts(c *Ctx, v, hi, lo uint64) {
	c.CaseL(fmt.Sprintf("%x %x %x", v, hi, lo), func() string { return fmt.Sprintf("64-bit %#x, 128-bit hi=%#x lo=%#x", v, hi, lo) })
	i, u := Int64(v), Uint64(v)
	var bi, bu []byte
	var err error
	c.NoPanic("Marshal", func() { bi, err = json.Marshal(i) })
	c.Check(err == nil, "Marshal Int64: %v", err)
	c.NoPanic("Marshal", func() { bu, err = json.Marshal(u) })
	c.Check(err == nil, "Marshal Uint64: %v", err)
	wi, wu := fmt.Sprint(int64(v)), fmt.Sprint(v)
	big32 := int64(v) > 0xffffffff || int64(v) < -0xffffffff
	if big32 {
		c.Check(string(bi) == `"`+wi+`"`, "Int64 %s marshals as %s", wi, bi)
	} else {
		c.Check(string(bi) == wi || string(bi) == `"`+wi+`"`, "Int64 %s marshals as %s", wi, bi)
	}
	if v > 0xffffffff {
		c.Check(string(bu) == `"`+wu+`"`, "Uint64 %s marshals as %s", wu, bu)
	} else {
		c.Check(string(bu) == wu || string(bu) == `"`+wu+`"`, "Uint64 %s marshals as %s", wu, bu)
	}
	for _, t := range []string{string(bi), wi, `"` + wi + `"`} {
		g := Int64(v ^ 0x55)
		c.NoPanic("Unmarshal", func() { err = json.Unmarshal([]byte(t), &g) })
		c.Check(err == nil && g == i, "Int64 from %s: %d, %v", t, g, err)
	}
	for _, t := range []string{string(bu), wu, `"` + wu + `"`} {
		g := Uint64(v ^ 0x55)
		c.NoPanic("Unmarshal", func() { err = json.Unmarshal([]byte(t), &g) })
		c.Check(err == nil && g == u, "Uint64 from %s: %d, %v", t, g, err)
	}
	for _, o := range []binary.ByteOrder{nil, binary.LittleEndian, binary.BigEndian} {
		a := Uint128{Hi: hi, Lo: lo, Endianness: o}
		vals := []interface{}{a, Int128(a), Float128(a)}
		for k, x := range vals {
			var b []byte
			c.NoPanic("Marshal", func() { b, err = json.Marshal(x) })
			c.Check(err == nil, "Marshal %T: %v", x, err)
			for _, o2 := range []binary.ByteOrder{nil, binary.LittleEndian, binary.BigEndian} {
				z := Uint128{Hi: 77, Lo: 88, Endianness: o2}
				switch k {
				case 0:
					c.NoPanic("Unmarshal", func() { err = json.Unmarshal(b, &z) })
				case 1:
					y := Int128(z)
					c.NoPanic("Unmarshal", func() { err = json.Unmarshal(b, &y) })
					z = Uint128(y)
				case 2:
					y := Float128(z)
					c.NoPanic("Unmarshal", func() { err = json.Unmarshal(b, &y) })
					z = Uint128(y)
				}
				c.Check(err == nil && z.Hi == hi && z.Lo == lo, "%T hi=%#x lo=%#x (order %v) marshals as %s and comes back (order %v) as hi=%#x lo=%#x, %v", x, hi, lo, o, b, o2, z.Hi, z.Lo, err)
			}
			if k == 0 {
				c.Check(string(b) == `"`+u128Dec(hi, lo)+`"`, "Uint128 hi=%#x lo=%#x marshals as %s", hi, lo, b)
			}
		}
	}
	// a whole document
	d := jdoc{I: i, U: u, A: Uint128{Hi: hi, Lo: lo}, S: Int128{Hi: lo, Lo: hi}, F: Float128{Hi: v, Lo: lo}, PI: &i, PU: &u, PA: &Uint128{Hi: lo, Lo: v}, L: []Uint64{u, 1, Uint64(lo)}, M: map[string]Int64{"a": i, "b": Int64(hi)}, LA: []Int128{{Hi: hi, Lo: v}}}
	d.H = HexBytes(c.Bytes(c.R.Intn(40)))
	var b []byte
	c.NoPanic("Marshal", func() { b, err = json.Marshal(d) })
	c.Check(err == nil, "Marshal of a document: %v", err)
	var g jdoc
	c.NoPanic("Unmarshal", func() { err = json.Unmarshal(b, &g) })
	c.Check(err == nil, "Unmarshal of %s: %v", b, err)
	if len(d.H) == 0 {
		g.H, d.H = nil, nil
	}
	c.Check(reflect.DeepEqual(d, g), "document %s came back as %+v, want %+v", b, g, d)
}
func checkHexJSON(c *Ctx, h []byte) {
	c.CaseL("hex"+string(h), func() string { return "HexBytes " + hx(h) })
	var b []byte
	var err error
	c.NoPanic("Marshal", func() { b, err = json.Marshal(HexBytes(h)) })
	c.Check(err == nil, "Marshal HexBytes: %v", err)
	c.Check(string(b) == `"`+hex.EncodeToString(h)+`"` || len(h) == 0, "HexBytes marshals as %s", b)
	c.Check(HexBytes(h).String() == hex.EncodeToString(h), "HexBytes.String() = %s", HexBytes(h).String())
	g := HexBytes{1, 2, 3}
	c.NoPanic("Unmarshal", func() { err = json.Unmarshal(b, &g) })
	c.Check(err == nil && bytes.Equal(g, h), "HexBytes [%x] came back as [%x], %v", h, []byte(g), err)
	up := `"` + strings.ToUpper(hex.EncodeToString(h)) + `"`
	c.NoPanic("Unmarshal", func() { err = json.Unmarshal([]byte(up), &g) })
	c.Check(err == nil && bytes.Equal(g, h), "HexBytes from %s: [%x], %v", up, []byte(g), err)
}

var (
	maxI64 = new(big.Int).SetUint64(1<<63 - 1)
	minI64 = new(big.Int).Neg(new(big.Int).SetUint64(1 << 63))
	maxU64 = new(big.Int).SetUint64(math.MaxUint64)
	maxU   = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1))
)

// plainDec: an optional minus sign and digits without a leading zero
func plainDec(s string) (*big.Int, bool) {
	t := strings.TrimPrefix(s, "-")
	if t == "" || len(t) > 1 && t[0] == '0' {
		return nil, false
	}
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return nil, false
		}
	}
	return new(big.Int).SetString(s, 10)
}

// text checks a JSON text of unknown validity against what it should mean.
func checkJSONText(c *Ctx, t string) {
	c.CaseL("text"+t, func() string { return fmt.Sprintf("JSON text %q", t) })
	if strings.TrimSpace(t) == "null" {
		return
	}
	valid := json.Valid([]byte(t))
	var s string
	isStr := valid && json.Unmarshal([]byte(t), &s) == nil
	tt := strings.TrimSpace(t)
	num := tt
	if isStr {
		num = s
	}
	n, dec := plainDec(num)
	// decimals written with a leading zero, a plus, a prefix or underscores are left open
	open := false
	if !dec {
		u := strings.TrimLeft(num, "+-")
		open = u != "" && u[0] >= '0' && u[0] <= '9'
		for _, r := range u {
			if !(r >= '0' && r <= '9' || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F' || strings.ContainsRune("xXoO_", r)) {
				open = false
			}
		}
	}
	var err error
	i := Int64(123)
	c.NoPanic("Unmarshal Int64", func() { err = json.Unmarshal([]byte(t), &i) })
	if valid && dec && n.Cmp(minI64) >= 0 && n.Cmp(maxI64) <= 0 {
		c.Check(err == nil && int64(i) == n.Int64(), "Int64 = %d, %v", i, err)
	} else if !open || !valid {
		c.Check(err != nil, "Int64 accepted it as %d", i)
	}
	c.NoPanic("UnmarshalJSON Int64", func() { i.UnmarshalJSON([]byte(t)) })
	u := Uint64(123)
	c.NoPanic("Unmarshal Uint64", func() { err = json.Unmarshal([]byte(t), &u) })
	if valid && dec && n.Sign() >= 0 && n.Cmp(maxU64) <= 0 && num[0] != '-' {
		c.Check(err == nil && uint64(u) == n.Uint64(), "Uint64 = %d, %v", u, err)
	} else if !open && num != "-0" || !valid {
		c.Check(err != nil, "Uint64 accepted it as %d", u)
	}
	c.NoPanic("UnmarshalJSON Uint64", func() { u.UnmarshalJSON([]byte(t)) })
	var f JSONFloat64
	c.NoPanic("Unmarshal JSONFloat64", func() { err = json.Unmarshal([]byte(t), &f); f.UnmarshalJSON([]byte(t)) })
	if !valid {
		c.Check(err != nil, "JSONFloat64 accepted it")
	}
	var bo Bool
	c.NoPanic("Unmarshal Bool", func() { err = json.Unmarshal([]byte(t), &bo); bo.UnmarshalJSON([]byte(t)) })
	if !valid {
		c.Check(err != nil, "Bool accepted it")
	}
	var h HexBytes
	c.NoPanic("Unmarshal HexBytes", func() { err = json.Unmarshal([]byte(t), &h) })
	if hb, e := hex.DecodeString(s); isStr && e == nil {
		c.Check(err == nil && bytes.Equal(h, hb), "HexBytes = [%x], %v", []byte(h), err)
	} else {
		c.Check(err != nil, "HexBytes accepted it as [%x]", []byte(h))
	}
	c.NoPanic("UnmarshalJSON HexBytes", func() { h.UnmarshalJSON([]byte(t)) })
	for _, o := range []binary.ByteOrder{nil, binary.LittleEndian, binary.BigEndian} {
		for k := 0; k < 3; k++ {
			z := Uint128{Hi: 1, Lo: 2, Endianness: o}
			oo := o
			switch k {
			case 0:
				c.NoPanic("Unmarshal Uint128", func() { err = json.Unmarshal([]byte(t), &z) })
			case 1:
				y := Int128(z)
				oo = nil
				c.NoPanic("Unmarshal Int128", func() { err = json.Unmarshal([]byte(t), &y) })
				z = Uint128(y)
			case 2:
				y := Float128(z)
				oo = nil
				c.NoPanic("Unmarshal Float128", func() { err = json.Unmarshal([]byte(t), &y) })
				z = Uint128(y)
			}
			switch {
			case isStr && (strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X")):
				hb, e := hex.DecodeString(s[2:])
				if e == nil && len(hb) == 16 {
					var hi, lo uint64
					if oo == binary.BigEndian {
						hi, lo = binary.BigEndian.Uint64(hb), binary.BigEndian.Uint64(hb[8:])
					} else {
						lo, hi = binary.LittleEndian.Uint64(hb), binary.LittleEndian.Uint64(hb[8:])
					}
					c.Check(err == nil && z.Hi == hi && z.Lo == lo, "%d-th 128-bit type (order %v) = hi %#x lo %#x, %v, want hi %#x lo %#x", k, o, z.Hi, z.Lo, err, hi, lo)
				} else {
					c.Check(err != nil, "%d-th 128-bit type accepted it as hi %#x lo %#x", k, z.Hi, z.Lo)
				}
			case isStr && dec && n.Sign() >= 0 && num[0] != '-' && n.Cmp(maxU) <= 0:
				w := new(big.Int).Rsh(n, 64).Uint64()
				l := new(big.Int).And(n, maxU64).Uint64()
				c.Check(err == nil && z.Hi == w && z.Lo == l, "%d-th 128-bit type (order %v) = hi %#x lo %#x, %v", k, o, z.Hi, z.Lo, err)
			case open && isStr || num == "-0" || !isStr && valid && dec && num[0] != '-':
				// accepting bare numbers would be an extension
			case isStr && strings.Contains(s, "_"):
			default:
				c.Check(err != nil, "%d-th 128-bit type accepted it as hi %#x lo %#x", k, z.Hi, z.Lo)
			}
		}
	}
}
func jsonTexts(c *Ctx) []string {
	ts := []string{`""`, `"`, ``, `{}`, `[]`, `[1]`, `true`, `false`, `1.5`, `1e3`, `"1.5"`, `"1e3"`, `-1`, `"-1"`, `"-"`, `"+1"`, `" 1"`, `"1 "`, `"0x"`, `"0X"`, `"0x1"`, `"0b1"`, `"a"`, `"zz"`, `"abc"`, `"0g"`, `"--1"`, `"é"`, `"\u0031"`, `"1" `, ` 7`, ` "7" `, `"7`, `7"`, `"7"x`, `1 2`, `01`, `"\x"`, `"0x00112233445566778899aabbccddeeff"`, `"0X00112233445566778899AABBCCDDEEFF"`, `"0x00112233445566778899aabbccddeef"`, `"0x00112233445566778899aabbccddeeff00"`, `"0x00112233445566778899aabbccddeegg"`, `"0x0011223344556677"`, `"0x001122334455667"`, `"-0x00112233445566778899aabbccddeeff"`, `"null"`, `"NaN"`, `"Inf"`, `"-1_0"`}
	for _, e := range []uint{31, 32, 33, 53, 62, 63, 64, 65, 96, 120, 127, 128, 129, 130, 192, 256, 1000} {
		for d := int64(-2); d <= 2; d++ {
			n := new(big.Int).Lsh(big.NewInt(1), e)
			n.Add(n, big.NewInt(d))
			s := n.String()
			ts = append(ts, s, `"`+s+`"`, "-"+s, `"-`+s+`"`)
		}
	}
	for _, s := range append(append([]string{}, c.Lits.Strings...), c.HintStrs...) {
		b, err := json.Marshal(s)
		if err == nil {
			ts = append(ts, string(b), s)
		}
	}
	return ts
}
func jsonOnce() Section {
	return Section{Name: "values and texts", Once: true, Run: func(c *Ctx) {
		is := c.Ints()
		for k, v := range is {
			checkJSONInts(c, v, is[(k*7+3)%len(is)], is[(k*13+1)%len(is)])
			checkJSONInts(c, v, v, 0)
			checkJSONInts(c, ^v, 0, v)
		}
		for n := 0; n < 70; n++ {
			checkHexJSON(c, c.Bytes(n))
		}
		for i := 0; i < 256; i++ {
			checkHexJSON(c, []byte{byte(i)})
			checkHexJSON(c, []byte{1, byte(i), 2})
		}
		for _, t := range jsonTexts(c) {
			checkJSONText(c, t)
		}
	}}
}
func jsonSection() Section {
	return Section{Name: "random values and texts", Run: func(c *Ctx) {
		for i := 0; i < 10; i++ {
			checkJSONInts(c, c.U64(), c.U64(), c.U64())
			checkHexJSON(c, c.Bytes(c.Len()))
			var t string
			switch c.R.Intn(5) {
			case 0:
				b := make([]byte, c.R.Intn(12))
				for j := range b {
					b[j] = `"0123456789-+xXaf._eE \{}[]`[c.R.Intn(27)]
				}
				t = string(b)
			case 1:
				b, _ := json.Marshal(c.Str())
				t = string(b)
			case 2:
				n := new(big.Int).Rand(c.R, new(big.Int).Lsh(big.NewInt(1), uint(1+c.R.Intn(140))))
				t = n.String()
				if c.R.Intn(4) == 0 {
					t = "-" + t
				}
				if c.R.Intn(3) > 0 {
					t = `"` + t + `"`
				}
			case 3:
				t = `"0x` + hex.EncodeToString(c.Bytes([]int{16, 16, 16, 8, 15, 17, 0, c.R.Intn(20)}[c.R.Intn(8)])) + `"`
			case 4:
				t = string(c.Bytes(c.R.Intn(6)))
			}
			checkJSONText(c, t)
		}
	}}
}

func init() {
	props["C17"] = []Section{variantsOnce(), variantsSection()}
	props["C18"] = []Section{tidOnce(), tidSection()}
	props["C19"] = []Section{sigOnce(), sigSection()}
	props["C20"] = []Section{jsonOnce(), jsonSection()}
	props["C21"] = []Section{caseOnce(), caseSection()}
}
