package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"

	. "github.com/gagliardetto/binary"
	bin "github.com/gagliardetto/binary"
)

// ---------------------------------------------------------------- C10 accounting

type shortWriter struct {
	out   []byte
	calls int
	at    int
	n     int // bytes accepted by the failing call
}

var errSink = errors.New("sink is full")

func (w *shortWriter) Write(b []byte) (int, error) {
	w.calls++
	w.out = append(w.out, b...)
	if w.calls == w.at {
		n := w.n
		if n > len(b) {
			n = len(b)
		}
		return n, errSink
	}
	return len(b), nil
}
func acctSection() Section {
	return Section{Name: "failing writers", Weight: 2, Run: func(c *Ctx) {
		t := c.PoolType()
		enc := encs[c.R.Intn(3)]
		c.enc = enc
		v := c.Val(t, 0)
		c.CaseV(enc, v)
		want, ok := specEnc(enc, v, defOpt)
		count, cerr := uint64(0), error(nil)
		var b []byte
		var merr error
		c.NoPanic("ByteCount", func() {
			count, cerr = map[Encoding]func(interface{}) (uint64, error){EncodingBin: BinByteCount, EncodingBorsh: BorshByteCount, EncodingCompactU16: CompactU16ByteCount}[enc](v.Interface())
			b, merr = marshalFn(enc)(v.Interface())
		})
		c.Check((cerr == nil) == (merr == nil), "ByteCount error %v, Marshal error %v", cerr, merr)
		if merr == nil {
			c.Check(count == uint64(len(b)), "ByteCount=%d, Marshal returned %d bytes", count, len(b))
			var m uint64
			c.NoPanic("MustByteCount", func() {
				m = map[Encoding]func(interface{}) uint64{EncodingBin: MustBinByteCount, EncodingBorsh: MustBorshByteCount, EncodingCompactU16: MustCompactU16ByteCount}[enc](v.Interface())
			})
			c.Check(m == count, "Must…ByteCount=%d, want %d", m, count)
		}
		rec := &shortWriter{}
		e := NewEncoderWithEncoding(rec, enc)
		var err error
		c.NoPanic("Encode", func() { err = e.Encode(v.Interface()) })
		c.Check(e.Written() == len(rec.out), "Written()=%d, the writer saw %d bytes", e.Written(), len(rec.out))
		if ok {
			c.Check(err == nil && want.matches(rec.out), "bytes handed over [%s] (err %v), item is [%s]", hx(rec.out), err, want.String())
		}
		calls := rec.calls
		ks := []int{}
		for k := 1; k <= calls && k <= 12; k++ {
			ks = append(ks, k)
		}
		if calls > 12 {
			ks = append(ks, calls, 13+c.R.Intn(calls-12))
		}
		for _, k := range ks {
			w := &shortWriter{at: k, n: c.R.Intn(9)}
			e := NewEncoderWithEncoding(w, enc)
			pre := c.Bytes(c.R.Intn(3))
			if len(pre) > 0 {
				w.at++
				e.Write(pre)
			}
			c.NoPanic("Encode to a failing writer", func() { err = e.Encode(v.Interface()) })
			if w.calls >= w.at {
				c.Check(err != nil, "the writer failed at its call %d and Encode returned nil", w.at)
			}
			c.Check(e.Written() == len(w.out), "writer failing at call %d: Written()=%d, the writer saw %d bytes", w.at, e.Written(), len(w.out))
			c.Count(1)
		}
	}}
}

// sequences of writes on one encoder
func writeHistories() Section {
	return Section{Name: "write histories", Run: func(c *Ctx) {
		rec := &recorder{}
		enc := encs[c.R.Intn(3)]
		e := NewEncoderWithEncoding(rec, enc)
		var want []byte
		var log []string
		for i := 0; i < 2+c.R.Intn(10); i++ {
			op := &wops[c.R.Intn(len(wops))]
			o := orders[c.R.Intn(2)]
			if strings.Contains(op.name, "Marshal") {
				o = orders[0] // an Encode leaves its field options behind, so a direct marshaler call after it is little-endian
			}
			w := op.mk(c, c.U64(), o)
			ok, lax, b := w.spec(enc)
			if lax {
				continue
			}
			log = append(log, clip(w.desc, 80))
			var err error
			c.Case(strings.Join(log, "; ") + " in " + enc.String())
			c.NoPanic(w.desc, func() { err = w.do(e) })
			if ok {
				want = append(want, b...)
			}
			c.Check((err == nil) == ok, "err=%v after %v", err, log)
			c.Check(bytes.Equal(rec.out, want), "the writer saw [%s], want [%s] after %v", hx(rec.out), hx(want), log)
			c.Check(e.Written() == len(rec.out), "Written()=%d of %d after %v", e.Written(), len(rec.out), log)
		}
	}}
}

// ---------------------------------------------------------------- C15 hostile input

// hostile types also contain things the decoder skips or refuses
var hostileTypes = append(append([]reflect.Type{T(sIface{}), T(int(0)), T(make(chan int)), T(func() {}), T([]int{}), T(map[string]int{}), T(struct {
	A uint8
	B []interface{}
}{}), T(sRec{}), T([]sRec{}), T(new(interface{})), T([]*uint16{}), T(map[string]*sInner{}), T(complex64(0)), T([3]complex64{}), T(struct{}{}), T([0]uint8{}), T([4]struct{}{}),
	T(struct {
		N int8 `bin:"sizeof=L"`
		L []uint64
	}{}), T(struct {
		N uint64 `bin:"sizeof=L"`
		L []byte
	}{}), T(struct {
		N int64 `bin:"sizeof=L big"`
		L []string
	}{}), T(struct {
		N uint32 `bin:"sizeof=L"`
		L []uint32
	}{}), T(struct {
		N Varint32 `bin:"sizeof=L"`
		L []uint16
	}{}), T(struct {
		N int16 `bin:"sizeof=L"`
		L *[]nU16
	}{}), T(struct {
		N uint8    `bin:"sizeof=L optional"`
		L []sInner `bin:"optional"`
	}{})}, scalarTypes...), ownTypes...)

type sRec struct {
	V uint8
	L []sRec
}

func maxSlice(v reflect.Value, d int) int {
	if d > 12 {
		return 0
	}
	m := 0
	up := func(n int) {
		if n > m {
			m = n
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			up(maxSlice(v.Elem(), d+1))
		}
	case reflect.Slice:
		up(v.Len())
		up(v.Cap() / 4) // growth by appending may round up
		for i := 0; i < v.Len() && i < 50; i++ {
			up(maxSlice(v.Index(i), d+1))
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 50; i++ {
			up(maxSlice(v.Index(i), d+1))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			up(maxSlice(v.MapIndex(k), d+1))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			up(maxSlice(v.Field(i), d+1))
		}
	}
	return m
}
func elemSize(t reflect.Type, d int) uintptr {
	s := t.Size()
	if d > 4 {
		return s
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return s + elemSize(t.Elem(), d+1)
	case reflect.Map:
		return s + elemSize(t.Elem(), d+1) + elemSize(t.Key(), d+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			s += elemSize(t.Field(i).Type, d+1)
		}
	}
	return s
}
func totalAlloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}
func checkHostile(c *Ctx, enc Encoding, t reflect.Type, data []byte, measure bool) {
	data = cp(data)
	data = data[:len(data):len(data)] // decoded byte slices may alias the input
	d := NewDecoderWithEncoding(data, enc)
	orig := cp(data)
	p := reflect.New(t)
	var err error
	var before uint64
	if measure {
		before = totalAlloc()
	}
	c.NoPanic("Decode", func() {
		if c.R.Intn(8) == 0 {
			q := reflect.New(p.Type())
			q.Elem().Set(p)
			err = d.Decode(q.Interface())
		} else {
			err = d.Decode(p.Interface())
		}
	})
	if measure {
		used := totalAlloc() - before
		limit := uint64(1<<19) + uint64(len(data)+2)*uint64(elemSize(t, 0)+256)*16
		c.Check(used <= limit, "decoding %d bytes allocated %d bytes", len(data), used)
	}
	pos := int(d.Position())
	c.Check(pos >= 0 && pos <= len(data) && pos+d.Remaining() == len(data), "cursor %d of %d (err %v)", pos, len(data), err)
	c.Check(bytes.Equal(orig, data), "the input was changed to [%s]", func() string { return hx(data) })
	if m := maxSlice(p.Elem(), 0); m > len(data) {
		c.Fail("a slice of %d elements (or capacity) came out of %d bytes", m, len(data))
	}
}

// loopy: types whose map entries take no bytes make the decoder spin on a lying count; a documented limit.
func loopy(t reflect.Type, d int) bool {
	if d > 6 {
		return false
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return loopy(t.Elem(), d+1)
	case reflect.Map:
		return !nonEmptyAll(t.Key()) && !nonEmptyAll(t.Elem()) || loopy(t.Elem(), d+1) || loopy(t.Key(), d+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if loopy(t.Field(i).Type, d+1) {
				return true
			}
		}
	}
	return false
}
func (c *Ctx) mutate(b []byte) []byte {
	b = cp(b)
	for k := 1 + c.R.Intn(3); k > 0; k-- {
		switch c.R.Intn(7) {
		case 0:
			if len(b) > 0 {
				b = b[:c.R.Intn(len(b))]
			}
		case 1:
			if len(b) > 0 {
				b[c.R.Intn(len(b))] = byte(c.U64())
			}
		case 2:
			if len(b) > 0 {
				b[c.R.Intn(len(b))] ^= 1 << uint(c.R.Intn(8))
			}
		case 3:
			i := c.R.Intn(len(b) + 1)
			b = append(b[:i], append(c.Bytes(c.R.Intn(5)), b[i:]...)...)
		case 4: // lying little-endian length
			if len(b) >= 4 {
				i := c.R.Intn(len(b) - 3)
				binary.LittleEndian.PutUint32(b[i:], uint32([]uint64{1 << 16, 1 << 20, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, uint64(len(b)), uint64(len(b) + 1)}[c.R.Intn(8)]))
			}
		case 5:
			if len(b) >= 8 {
				i := c.R.Intn(len(b) - 7)
				orders[c.R.Intn(2)].PutUint64(b[i:], c.U64())
			}
		case 6: // varint length
			i := c.R.Intn(len(b) + 1)
			j := i
			if j < len(b) {
				j++
			}
			b = append(append(cp(b[:i]), specUvarint(c.U64())...), b[j:]...)
		}
	}
	return b
}
func hostileSection() Section {
	n := 0
	return Section{Name: "hostile bytes", Weight: 3, Run: func(c *Ctx) {
		n++
		t := c.PoolType()
		if c.R.Intn(3) == 0 {
			t = hostileTypes[c.R.Intn(len(hostileTypes))]
		}
		enc := encs[c.R.Intn(3)]
		c.enc = enc
		if loopy(t, 0) {
			return
		}
		var data []byte
		if c.R.Intn(3) > 0 && !strings.Contains(t.String(), "interface") {
			v := c.Val(t, 1)
			p, ok := specEnc(enc, v, defOpt)
			if ok {
				data, ok = p.flat()
			}
			if !ok {
				data = c.readBuf()
			}
			data = c.mutate(data)
		} else {
			data = c.readBuf()
		}
		c.CaseL(fmt.Sprint(enc, t, hx(data)), func() string { return fmt.Sprintf("%v bytes [%s] into %v", enc, hx(data), t) })
		checkHostile(c, enc, t, data, n%8 == 0)
	}}
}

// lyingOnce: every container type with ascending false lengths.
func lyingOnce() Section {
	return Section{Name: "lying lengths", Once: true, Run: func(c *Ctx) {
		var ts []reflect.Type
		for _, t := range append(append([]reflect.Type{T(sInner{}), T(sOpt{}), T([3]uint16{}), T([]byte{}), T(&sInner{}), T("")}, scalarTypes...), ownTypes...) {
			ts = append(ts, reflect.SliceOf(t), reflect.MapOf(T("a"), t), reflect.MapOf(T(uint8(0)), t))
		}
		for _, t := range []reflect.Type{T(""), T(nStr("")), T(HexBytes{}), T(SafeString("")), T(nBS{}), T([]nU8{}), T([]nU16{}), T([]nU32{}), T([]nU64{}), T(&[]uint64{}), T(sDeep{}), T(sMaps{})} {
			ts = append(ts, t)
		}
		lens := []uint64{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 63, 64, 127, 128, 255, 256, 1000, 65535, 65536, 1 << 17, 1 << 18, 1 << 20, 1 << 22, 1 << 24, 1<<29 - 1, 1 << 29, 1<<30 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<33 + 5, 1<<61 + 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}
		for _, l := range lens {
			for _, t := range ts {
				for _, enc := range encs {
					for _, rest := range []int{0, 1, 3, 8, 9, 20} {
						for form := 0; form < 3; form++ {
							var pre []byte
							switch form {
							case 0:
								pre = specUvarint(l)
							case 1:
								pre = spec32(uint32(l), binary.LittleEndian)
								if l>>32 != 0 {
									continue
								}
							case 2:
								pre = spec64(l, binary.LittleEndian)
							}
							data := append(cp(pre), bytes.Repeat([]byte{1}, rest)...)
							c.CaseL(fmt.Sprint(enc, t, l, rest, form), func() string { return fmt.Sprintf("%v bytes [%s] into %v", enc, hx(data), t) })
							checkHostile(c, enc, t, data, l >= 1<<17 && rest == 8)
						}
					}
				}
			}
		}
		// sizeof fields of every kind
		for _, nt := range intTypes {
			for _, lt := range []reflect.Type{T([]byte{}), T([]uint16{}), T([]uint32{}), T([]uint64{}), T([]nU8{}), T([]nU64{}), T([]string{}), T([]int8{}), T([]sInner{}), T(&[]byte{}), T(&[]int64{})} {
				for _, tag := range []string{"sizeof=L", "sizeof=L big"} {
					t := reflect.StructOf([]reflect.StructField{{Name: "N", Type: nt, Tag: reflect.StructTag(`bin:"` + tag + `"`)}, {Name: "L", Type: lt}})
					for _, l := range append([]uint64{0}, lens...) {
						for _, enc := range encs {
							nv := reflect.New(nt).Elem()
							if nt.Kind() >= reflect.Uint && nt.Kind() <= reflect.Uint64 {
								nv.SetUint(l << (64 - nt.Bits()) >> (64 - nt.Bits()))
							} else {
								nv.SetInt(int64(l) << (64 - nt.Bits()) >> (64 - nt.Bits()))
							}
							o := defOpt
							if strings.HasSuffix(tag, "big") {
								o.order = binary.BigEndian
							}
							p, _ := specEnc(enc, nv, o)
							pre, _ := p.flat()
							data := append(cp(pre), 1, 0, 0, 0, 0, 0, 0, 0, 1)
							c.CaseL(fmt.Sprint(enc, t, l), func() string { return fmt.Sprintf("%v bytes [%s] into %v", enc, hx(data), t) })
							checkHostile(c, enc, t, data, l >= 1<<17)
						}
					}
				}
			}
		}
		badTargets(c)
		// every truncation and every single-byte corruption of one encoding of each static type
		for _, t := range append(append([]reflect.Type{}, staticTypes...), hostileTypes...) {
			if loopy(t, 0) || strings.Contains(t.String(), "interface") {
				continue
			}
			for _, enc := range encs {
				c.enc = enc
				v := c.Val(t, 2)
				p, ok := specEnc(enc, v, defOpt)
				if !ok {
					continue
				}
				data, ok := p.flat()
				if !ok {
					continue
				}
				if len(data) > 300 {
					data = data[:300]
				}
				for i := 0; i <= len(data); i++ {
					c.CaseL(fmt.Sprint(enc, t, i), func() string { return fmt.Sprintf("%v truncated bytes [%s] into %v", enc, hx(data[:i]), t) })
					checkHostile(c, enc, t, cp(data[:i]), false)
				}
				for i := range data {
					for _, x := range []byte{0, 1, 0x7f, 0x80, 0xff} {
						m := cp(data)
						m[i] = x
						c.CaseL(fmt.Sprint(enc, t, i, x), func() string { return fmt.Sprintf("%v corrupted bytes [%s] into %v", enc, hx(m), t) })
						checkHostile(c, enc, t, m, false)
					}
				}
			}
		}
	}}
}

// ifaceTargets: interfaces in the target already hold something.
func ifaceTargets(c *Ctx) {
	type holder struct {
		A interface{}
		B uint8
		C BinaryUnmarshaler
		D interface{} `bin:"optional"`
		E []interface{}
		F map[string]interface{}
		G [2]interface{}
	}
	mk := []func() interface{}{
		func() interface{} { return nil }, func() interface{} { return (*uint16)(nil) }, func() interface{} { return new(uint16) }, func() interface{} { return new(*uint16) },
		func() interface{} { return (**uint16)(nil) }, func() interface{} { return (*sInner)(nil) }, func() interface{} { return &sInner{} }, func() interface{} { return uint8(4) },
		func() interface{} { return []byte{1} }, func() interface{} { return map[string]uint8{} }, func() interface{} { return (*cmV)(nil) }, func() interface{} { return &cmV{} },
		func() interface{} { return cmV{} }, func() interface{} { return new(interface{}) }, func() interface{} { return (*interface{})(nil) }, func() interface{} { return sInner{} },
		func() interface{} { return new([]uint32) }, func() interface{} { return func() {} }, func() interface{} { return make(chan int) }, func() interface{} { x := interface{}(new(uint8)); return &x },
	}
	datas := [][]byte{nil, {0}, {1}, {2, 0, 0}, {1, 0, 0, 0, 1, 0, 0, 0, 9, 9, 9, 9, 9, 9, 9, 9, 9}, bytes.Repeat([]byte{1}, 40), bytes.Repeat([]byte{0}, 40), {0xc5, 0, 1, 2, 0, 0, 0, 0, 0, 0, 0, 65, 66, 1, 1, 1, 1, 0xc5, 0, 1, 2, 0, 0, 0, 0, 0, 0, 0, 65, 66}}
	try := func(enc Encoding, i int, what string, data []byte, target interface{}) {
		c.CaseL(fmt.Sprint(enc, what, i, hx(data)), func() string {
			return fmt.Sprintf("%v bytes [%s] into a %s that holds a %T", enc, hx(data), what, mk[i]())
		})
		d := NewDecoderWithEncoding(cp(data), enc)
		c.NoPanic("Decode", func() { d.Decode(target) })
		pos := int(d.Position())
		c.Check(pos >= 0 && pos <= len(data) && pos+d.Remaining() == len(data), "cursor %d of %d", pos, len(data))
	}
	for _, enc := range encs {
		for i := range mk {
			for _, data := range datas {
				x := mk[i]()
				try(enc, i, "interface variable", data, &x)
				px := &x
				try(enc, i, "pointer to an interface variable", data, &px)
				h := holder{A: mk[i](), D: mk[i](), E: []interface{}{mk[i]()}, F: map[string]interface{}{"": mk[i]()}, G: [2]interface{}{nil, mk[i]()}}
				if u, ok := mk[i]().(BinaryUnmarshaler); ok {
					h.C = u
				}
				try(enc, i, "struct with interface fields", data, &h)
				var s [1]interface{}
				s[0] = mk[i]()
				try(enc, i, "array of interfaces", data, &s)
			}
		}
	}
}
func badTargets(c *Ctx) {
	ifaceTargets(c)
	var np *sInner
	var npp **uint8
	var ni interface{}
	var nerr error
	for _, enc := range encs {
		for _, x := range []interface{}{nil, np, npp, 5, "x", sInner{}, []byte{}, map[string]uint8{}, ni, nerr, (*uint8)(nil), (*cmV)(nil), (*cmP)(nil), (*HexBytes)(nil), (*[]byte)(nil), (*map[string]bool)(nil), cmV{}, uint8(1), (*Uint64)(nil)} {
			for _, data := range [][]byte{nil, {1}, {1, 0, 0, 0, 1, 0, 0, 0, 9, 9, 9, 9, 9, 9, 9, 9, 9}} {
				c.Case(fmt.Sprintf("%v Decode into %T", enc, x))
				var e1, e2 error
				d := NewDecoderWithEncoding(data, enc)
				c.NoPanic("Decode", func() { e1 = d.Decode(x); e2 = unmarshalFn(enc)(x, data) })
				c.Check(e1 != nil && e2 != nil, "Decode into %T reported no error", x)
				c.Check(d.Position() == 0, "Decode into %T consumed input", x)
			}
		}
	}
}

// ---------------------------------------------------------------- C16 tags

var tagWords = []string{"big", "little", "optional", "option", "coption", "binary_extension", "skip", "-", "enum", "", "Optional", "options", "op", "BIG", "bigg", "skipp", "sk ip", "--", "enumm", "sizeof", "sizeof=", "sizeof=L", "sizeof=l", "sizeof=X", "Sizeof=L", "asizeof=L", "sizeof=L=", "binary_ext", "coptions", "co", "le", "be", "true", "borsh_skip", "borsh_enum", "optional,big", "big,optional", "optional,", ",skip", "-,", "little\t", "x", "sizeof:L", "option=true", "skip=true", "-big", "big-endian", "default"}

func (c *Ctx) tag(words []string) string {
	seps := []string{" ", " ", " ", "  ", ",", ";"}
	var b strings.Builder
	for i, n := 0, c.R.Intn(4); i < n; i++ {
		if i > 0 {
			b.WriteString(seps[c.R.Intn(len(seps))])
		}
		b.WriteString(words[c.R.Intn(len(words))])
	}
	t := b.String()
	switch c.R.Intn(12) {
	case 0:
		t = " " + t
	case 1:
		t += " "
	}
	return t
}
func tagsSection() Section {
	return Section{Name: "tags", Weight: 3, Run: func(c *Ctx) {
		r := c.R
		var fs []reflect.StructField
		names := []string{"A", "B", "L", "C", "X", "D"}
		ext := false
		n := 1 + r.Intn(len(names))
		for i := 0; i < n; i++ {
			t := []reflect.Type{T(uint16(0)), T(int32(0)), T(uint64(0)), T(float64(0)), T(uint8(0)), T(Uint64(0))}[r.Intn(6)]
			bt := c.tag(tagWords)
			if len(c.Lits.Strings) > 0 && r.Intn(6) == 0 {
				bt += " " + strings.Map(func(r rune) rune {
					if r == '"' || r == '\\' || r == '`' || r < 32 {
						return -1
					}
					return r
				}, c.Lits.Strings[r.Intn(len(c.Lits.Strings))])
			}
			tag := fmt.Sprintf(`bin:%q`, bt)
			switch r.Intn(10) {
			case 0:
				tag += ` borsh_skip:"true"`
			case 1:
				tag += ` borsh_skip:"` + []string{"false", " true ", "True", "1", "", "true,"}[r.Intn(6)] + `"`
			case 2:
				tag += ` borsh_enum:"true"`
			case 3:
				tag += ` json:"skip" other:"-"`
			case 4:
				tag = fmt.Sprintf(`json:%q`, bt)
			}
			if names[i] == "L" {
				t = []reflect.Type{T([]uint16{}), T([]byte{}), T([]string{}), T([]int32{}), T([]nU8{})}[r.Intn(5)]
			}
			if names[i] == "A" && r.Intn(2) == 0 {
				t = T(BorshEnum(0))
			}
			tg := parseTag(reflect.StructTag(tag))
			name := names[i]
			f := reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
			if r.Intn(9) == 0 {
				f.Name = strings.ToLower(name)
				f.PkgPath = "vh"
			}
			if tg.sizeof != "" {
				if k := t.Kind(); k == reflect.Float64 || k == reflect.Slice {
					f.Type = T(uint16(0)) // sizeof belongs on an integer
				}
				if name == "L" {
					continue
				}
			}
			if tg.opt && tg.copt {
				continue
			}
			if !tg.skip {
				if tg.ext {
					ext = true
				} else if ext {
					continue // extensions must come last
				}
			}
			fs = append(fs, f)
		}
		if len(fs) == 0 {
			return
		}
		if len(pool.ts) > 3000 {
			return
		}
		t := reflect.StructOf(fs)
		if isEnum(t) && t.NumField() < 2 {
			return
		}
		for _, enc := range encs {
			c.enc = enc
			for k := 0; k < 2; k++ {
				v := c.Val(t, 2)
				if !sizesConsistent(v) {
					continue
				}
				if isEnum(t) && enc == EncodingBorsh {
					n := int(v.Field(0).Uint())
					if t.Field(0).PkgPath != "" || n+1 >= t.NumField() || t.Field(n+1).PkgPath != "" {
						continue
					}
				}
				c.CaseV(enc, v)
				b, ok := checkEncode(c, enc, v)
				if ok {
					checkDecode(c, enc, v, b)
				}
			}
		}
	}}
}

// sizesConsistent: every sizeof field that is encoded holds its slice's length, and the slice follows it.
func sizesConsistent(v reflect.Value) bool {
	t := v.Type()
	sized := map[string]int{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tg := parseTag(f.Tag)
		if tg.skip || f.PkgPath != "" {
			continue
		}
		if n, ok := sized[f.Name]; ok && f.Type.Kind() == reflect.Slice && v.Field(i).Len() != n {
			return false
		}
		if tg.sizeof != "" {
			n := intOf(v.Field(i))
			sized[tg.sizeof] = n
		}
	}
	return true
}

// extensions: for every prefix that ends at a field boundary, the missing trailing fields stay untouched.
func extSection() Section {
	return Section{Name: "binary extensions", Run: func(c *Ctx) {
		r := c.R
		n, x := r.Intn(3), 1+r.Intn(3)
		var fs []reflect.StructField
		for i := 0; i < n+x; i++ {
			tag := ""
			if i >= n {
				tag = "binary_extension"
			}
			if r.Intn(3) == 0 {
				tag = strings.TrimSpace("big " + tag)
			}
			if r.Intn(3) == 0 {
				tag = strings.TrimSpace(tag + " optional")
			}
			var t reflect.Type
			for t == nil || !nonEmptyAll(t) || t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Ptr {
				t = c.Type(1)
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t, Tag: reflect.StructTag(`bin:"` + tag + `"`)})
		}
		if hasExt(reflect.StructOf(fs[:n]), 0) {
			return
		}
		for _, f := range fs[n:] {
			if hasExt(f.Type, 0) {
				return
			}
		}
		t := reflect.StructOf(fs)
		enc := encs[r.Intn(3)]
		c.enc = enc
		v := c.Val(t, 2)
		for keep := n; keep <= n+x; keep++ {
			var data []byte
			for i := 0; i < keep; i++ {
				tg := parseTag(fs[i].Tag)
				p, ok := specEnc(enc, v.Field(i), sopt{order: tg.order, opt: tg.opt})
				if !ok {
					return
				}
				b, ok := p.flat()
				if !ok {
					return
				}
				data = append(data, b...)
			}
			old := c.Val(t, 2) // previous contents of the target
			if keep == n+x {
				old = reflect.New(t).Elem()
			}
			p := reflect.New(t)
			for i := keep; i < n+x; i++ {
				p.Elem().Field(i).Set(old.Field(i))
			}
			c.CaseL(fmt.Sprint(enc, t, keep, hx(data)), func() string {
				return fmt.Sprintf("%v bytes [%s] (%d of %d fields) into %v", enc, hx(data), keep, n+x, t)
			})
			d := NewDecoderWithEncoding(data, enc)
			var err error
			c.NoPanic("Decode", func() { err = d.Decode(p.Interface()) })
			c.Check(err == nil, "decoding fields up to %d failed: %v", keep, err)
			for i := 0; i < keep; i++ {
				tg := parseTag(fs[i].Tag)
				df := same(enc, v.Field(i), p.Elem().Field(i), sopt{order: tg.order, opt: tg.opt})
				c.Check(df == "", "field %d: %s", i, df)
			}
			for i := keep; i < n+x; i++ {
				c.Check(reflect.DeepEqual(p.Elem().Field(i).Interface(), old.Field(i).Interface()) || nanIn(old.Field(i), 0), "absent extension field %d was changed to %s", i, show(p.Elem().Field(i)))
			}
			c.Check(int(d.Position()) == len(data), "position %d of %d", d.Position(), len(data))
		}
	}}
}
func nanIn(v reflect.Value, d int) bool {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return v.Float() != v.Float()
	case reflect.Ptr:
		return !v.IsNil() && nanIn(v.Elem(), d+1)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if nanIn(v.Index(i), d+1) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if nanIn(v.Field(i), d+1) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if nanIn(v.MapIndex(k), d+1) || nanIn(k, d+1) {
				return true
			}
		}
	}
	return false
}

// tagWordsOnce: each word alone, before, after and glued to others.
func tagWordsOnce() Section {
	return Section{Name: "tag words", Once: true, Run: func(c *Ctx) {
		words := append([]string{}, tagWords...)
		for _, s := range c.Lits.Strings {
			if len(s) < 30 && !strings.ContainsAny(s, "\"\\`\n\t%") {
				words = append(words, s)
			}
		}
		for _, w := range words {
			for _, w2 := range append([]string{"", "x", "x "}, tagWords[:9]...) {
				for _, tag := range []string{w + " " + w2, w2 + " " + w, w + w2} {
					st := reflect.StructTag(fmt.Sprintf(`bin:%q`, tag))
					tg := parseTag(st)
					if tg.opt && tg.copt || tg.ext {
						continue
					}
					ft := T(uint32(0))
					t := reflect.StructOf([]reflect.StructField{{Name: "A", Type: ft, Tag: st}, {Name: "L", Type: T([]uint16{})}, {Name: "B", Type: T(uint8(0))}})
					for _, enc := range encs {
						for _, x := range []uint64{0, 2, 0x01020304} {
							v := reflect.New(t).Elem()
							v.Field(0).SetUint(x)
							if x == 2 {
								v.Field(1).Set(reflect.ValueOf([]uint16{0x0102, 0x0304}))
							}
							v.Field(2).SetUint(9)
							if !sizesConsistent(v) {
								continue
							}
							c.CaseL(fmt.Sprint(enc, tag, x), valueCase(enc, v))
							if b, ok := checkEncode(c, enc, v); ok {
								checkDecode(c, enc, v, b)
							}
						}
					}
				}
			}
		}
	}}
}

// ---------------------------------------------------------------- C22 maps

func mapsSection() Section {
	return Section{Name: "map histories", Weight: 3, Run: func(c *Ctx) {
		r := c.R
		kt := keyTypes[r.Intn(len(keyTypes))]
		vt := []reflect.Type{T(uint8(0)), T(""), T([]uint16{}), T(sInner{}), T(cmV{}), T(uint64(0)), T(nStr("")), T([2]int16{}), T(Varuint32(0))}[r.Intn(9)]
		t := reflect.MapOf(kt, vt)
		var ks, vs []reflect.Value
		n := r.Intn(9)
		if r.Intn(6) == 0 {
			n = r.Intn(200)
		}
		m1 := reflect.MakeMap(t)
		c.enc = EncodingBorsh
		base := c.Val(kt, 3)
		for i := 0; i < n; i++ {
			k := c.Val(kt, 3)
			if r.Intn(2) == 0 { // neighbours of one key
				k = near(c, base)
			}
			if (k.Kind() == reflect.Float32 || k.Kind() == reflect.Float64) && k.Float() != k.Float() {
				continue
			}
			v := c.Val(vt, 3)
			m1.SetMapIndex(k, v)
			ks, vs = append(ks, k), append(vs, v)
		}
		// a second map with the same contents and another history
		m2 := reflect.MakeMap(t)
		junk := 0
		for i := 0; i < r.Intn(50); i++ {
			k := c.Val(kt, 3)
			m2.SetMapIndex(k, c.Val(vt, 3))
			junk++
		}
		for _, k := range m2.MapKeys() {
			m2.SetMapIndex(k, reflect.Value{})
		}
		if m2.Len() > 0 {
			m2 = reflect.MakeMap(t) // NaN junk keys
		}
		keys := m1.MapKeys()
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for _, k := range keys {
			m2.SetMapIndex(k, m1.MapIndex(k))
		}
		v := m1
		w := m2
		if r.Intn(3) == 0 {
			st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: T(uint8(0))}, {Name: "M", Type: t}, {Name: "P", Type: reflect.PtrTo(t), Tag: `bin:"optional"`}})
			mk := func(m reflect.Value) reflect.Value {
				s := reflect.New(st).Elem()
				s.Field(1).Set(m)
				p := reflect.New(t)
				p.Elem().Set(m)
				s.Field(2).Set(p)
				return s
			}
			v, w = mk(m1), mk(m2)
		}
		c.CaseV(EncodingBorsh, v)
		a, ok := checkEncode(c, EncodingBorsh, v)
		if !ok {
			return
		}
		b, ok := checkEncode(c, EncodingBorsh, w)
		c.Check(ok && bytes.Equal(a, b), "equal maps encode as [%s] and [%s]", func() string { return hx(a) }, func() string { return hx(b) })
	}}
}
func near(c *Ctx, b reflect.Value) reflect.Value {
	v := reflect.New(b.Type()).Elem()
	v.Set(b)
	d := c.R.Intn(7) - 3
	switch k := v.Kind(); {
	case k >= reflect.Int && k <= reflect.Int64:
		v.SetInt((v.Int() + int64(d)) << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	case k >= reflect.Uint && k <= reflect.Uint64:
		v.SetUint((v.Uint() + uint64(d)) << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	case k == reflect.Float32 || k == reflect.Float64:
		v.SetFloat([]float64{0, 1, -1, 0.5, -0.5, math.Inf(1), math.Inf(-1), 1e-300, 2, -2, float64(d) / 7}[c.R.Intn(11)])
	case k == reflect.String:
		s := v.String()
		switch d {
		case 0:
			s += "a"
		case 1:
			s += "\x00"
		case 2:
			s += "\xff"
		case 3:
			if len(s) > 0 {
				s = s[:len(s)-1]
			}
		case -1:
			s = strings.ToUpper(s)
		case -2:
			s = "a" + s
		}
		if v.Type() == T(SafeString("")) {
			s = strings.ToValidUTF8(s, "?")
		}
		v.SetString(s)
	case k == reflect.Bool:
		v.SetBool(c.R.Intn(2) == 0)
	}
	return v
}

// ---------------------------------------------------------------- C23 tracing

func traceSection() Section {
	return Section{Name: "tracing on and off", Weight: 3, Run: func(c *Ctx) {
		defer bin.VH_SetTrace(false)
		run := func(f func() string) (s string) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(failure); ok {
						panic(e)
					}
					s = "panic: " + fmt.Sprint(e)
				}
			}()
			return f()
		}
		errS := func(e error) string {
			if e == nil {
				return "ok"
			}
			s := e.Error()
			if i := strings.Index(s, "%!"); i >= 0 {
				s = s[:i]
			}
			return s
		}
		var f func() string
		switch c.R.Intn(5) {
		case 0: // reads
			op := &rops[c.R.Intn(len(rops))]
			data, o, enc, n := c.readBuf(), orders[c.R.Intn(2)], encs[c.R.Intn(3)], c.R.Intn(20)
			pos := c.R.Intn(len(data) + 1)
			c.CaseL(fmt.Sprint(op.name, hx(data), pos, enc, o), func() string {
				return fmt.Sprintf("%s data=%s pos=%d enc=%v order=%v n=%d", op.name, hx(data), pos, enc, o, n)
			})
			f = func() string {
				d := NewDecoderWithEncoding(cp(data), enc)
				d.SkipBytes(uint(pos))
				v, err := op.do(d, o, n)
				return fmt.Sprintf("%v %s pos=%d", v, errS(err), d.Position())
			}
		case 1: // writes
			op := &wops[c.R.Intn(len(wops))]
			enc := encs[c.R.Intn(3)]
			w := op.mk(c, c.U64(), orders[c.R.Intn(2)])
			fail := 0
			if c.R.Intn(4) == 0 {
				fail = 1 + c.R.Intn(2)
			}
			c.CaseL(w.desc+enc.String(), func() string { return w.desc + " in " + enc.String() })
			f = func() string {
				rec := &shortWriter{at: fail}
				e := NewEncoderWithEncoding(rec, enc)
				err := w.do(e)
				return fmt.Sprintf("%s written=%d [%x]", errS(err), e.Written(), rec.out)
			}
		case 2, 3: // encode, then decode the result
			t := c.PoolType()
			enc := encs[c.R.Intn(3)]
			c.enc = enc
			v := c.Val(t, 1)
			p, _ := specEnc(enc, v, defOpt)
			_, fixedOrder := p.flat()
			c.CaseV(enc, v)
			f = func() string {
				rec := &shortWriter{}
				e := NewEncoderWithEncoding(rec, enc)
				err := e.Encode(v.Interface())
				s := fmt.Sprintf("%s written=%d", errS(err), e.Written())
				if fixedOrder {
					s += fmt.Sprintf(" [%x]", rec.out)
				}
				if err == nil {
					d := NewDecoderWithEncoding(rec.out, enc)
					q := reflect.New(t)
					err = d.Decode(q.Interface())
					s += fmt.Sprintf(" decode %s pos=%d same=%s", errS(err), d.Position(), same(enc, v, q.Elem(), defOpt))
				}
				return s
			}
		case 4: // hostile decode
			t := c.PoolType()
			enc := encs[c.R.Intn(3)]
			if loopy(t, 0) {
				return
			}
			data := c.readBuf()
			if c.R.Intn(2) == 0 {
				c.enc = enc
				if p, ok := specEnc(enc, c.Val(t, 2), defOpt); ok {
					if b, ok := p.flat(); ok {
						data = c.mutate(b)
					}
				}
			}
			c.CaseL(fmt.Sprint(enc, t, hx(data)), func() string { return fmt.Sprintf("%v bytes [%s] into %v", enc, hx(data), t) })
			f = func() string {
				d := NewDecoderWithEncoding(cp(data), enc)
				q := reflect.New(t)
				err := d.Decode(q.Interface())
				return fmt.Sprintf("%s pos=%d %s", errS(err), d.Position(), showDeepSorted(q.Elem()))
			}
		}
		bin.VH_SetTrace(false)
		off := run(f)
		bin.VH_SetTrace(true)
		on := run(f)
		bin.VH_SetTrace(false)
		c.Check(off == on, "without tracing: %s\nwith tracing: %s", off, on)
	}}
}

// showDeepSorted is a rendering that does not depend on map order or addresses.
func showDeepSorted(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Map:
		return fmt.Sprintf("map of %d", v.Len())
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + showDeepSorted(v.Elem())
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, showDeepSorted(v.Field(i)))
		}
		return "{" + strings.Join(s, " ") + "}"
	case reflect.Slice, reflect.Array:
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, showDeepSorted(v.Index(i)))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("%x", math.Float64bits(v.Float()))
	case reflect.Chan, reflect.Func:
		return "?"
	case reflect.Interface:
		return fmt.Sprintf("iface nil=%v", v.IsNil())
	}
	return fmt.Sprintf("%v", v)
}
func traceOnce() Section {
	return Section{Name: "tracing edges", Once: true, Run: func(c *Ctx) {
		s := traceSection()
		for i := 0; i < 20000; i++ {
			s.Run(c)
		}
	}}
}

func init() {
	props["C10"] = []Section{writeOnce("", "acct"), acctSection(), writeRandom("", "acct"), writeHistories()}
	props["C15"] = []Section{lyingOnce(), hostileSection()}
	props["C16"] = []Section{tagWordsOnce(), tagsSection(), extSection(), encodeSection(encs, true)}
	props["C22"] = []Section{mapsSection(), encodeSection([]Encoding{EncodingBorsh}, false)}
	props["C23"] = []Section{traceOnce(), traceSection()}
}
