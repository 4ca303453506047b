From 0cca0d8c43fcce58278ea353e789b776a91d0baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:00 +0000
Subject: [PATCH 01/18] fix: size varint write buffers for every int (values of
 2^56 and above panicked)

---
 encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index 37a7775..a8ebcee 100644
--- a/encoder.go
+++ b/encoder.go
@@ -152,7 +152,7 @@ func (e *Encoder) WriteUVarInt(v int) (err error) {
 		zlog.Debug("encode: write uvarint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutUvarint(buf, uint64(v))
 	return e.toWriter(buf[:l])
 }
@@ -162,7 +162,7 @@ func (e *Encoder) WriteVarInt(v int) (err error) {
 		zlog.Debug("encode: write varint", zap.Int("val", v))
 	}
 
-	buf := make([]byte, 8)
+	buf := make([]byte, binary.MaxVarintLen64)
 	l := binary.PutVarint(buf, int64(v))
 	return e.toWriter(buf[:l])
 }
-- 
2.43.0


From 056a00b5b876960ded4f7629218adf8d6286f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:02 +0000
Subject: [PATCH 02/18] fix: report compact-u16 lengths that cannot be encoded
 instead of writing nothing

---
 encoder.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index a8ebcee..06e6758 100644
--- a/encoder.go
+++ b/encoder.go
@@ -137,7 +137,9 @@ func (e *Encoder) WriteLength(length int) error {
 		}
 	case EncodingCompactU16:
 		var buf []byte
-		EncodeCompactU16Length(&buf, length)
+		if err := EncodeCompactU16Length(&buf, length); err != nil {
+			return err
+		}
 		if err := e.WriteBytes(buf, false); err != nil {
 			return err
 		}
@@ -353,7 +355,9 @@ func (e *Encoder) WriteCompactU16(ln int) (err error) {
 		zlog.Debug("encode: write compact-u16", zap.Int("val", ln))
 	}
 	buf := make([]byte, 0)
-	EncodeCompactU16Length(&buf, ln)
+	if err := EncodeCompactU16Length(&buf, ln); err != nil {
+		return err
+	}
 	return e.toWriter(buf)
 }
 
-- 
2.43.0


From 83c640e7ab512f9645c4250bbcc70c8dcb4fcd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:04 +0000
Subject: [PATCH 03/18] fix: SetPosition accepted indexes above MaxInt and left
 a negative position

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index c843348..5a974e0 100644
--- a/decoder.go
+++ b/decoder.go
@@ -660,7 +660,7 @@ func (dec *Decoder) SkipBytes(count uint) error {
 }
 
 func (dec *Decoder) SetPosition(idx uint) error {
-	if int(idx) < len(dec.data) {
+	if idx < uint(len(dec.data)) {
 		dec.pos = int(idx)
 		return nil
 	}
-- 
2.43.0


From 9052d3bcb626a9cf4e5681a310c9ba195e274b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:05 +0000
Subject: [PATCH 04/18] fix: reject negative sizeof-provided slice lengths
 instead of panicking

---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index ca58676..7bb8358 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -189,7 +189,7 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv))
 		}
 
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index bcac383..651fd6f 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -228,7 +228,7 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			// Empty slices are left nil
 			return
 		}
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 13396dd..b08006d 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -188,7 +188,7 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 			zlog.Debug("reading slice", zap.Int("len", l), typeField("type", rv))
 		}
 
-		if l > dec.Remaining() {
+		if l < 0 || l > dec.Remaining() {
 			return io.ErrUnexpectedEOF
 		}
 
-- 
2.43.0


From 1021b9a5121abcb1973b675f97c5c4f92d579d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:07 +0000
Subject: [PATCH 05/18] fix: decoding into a nil pointer returns
 InvalidDecoderError instead of panicking

---
 decoder_bin.go         | 2 +-
 decoder_borsh.go       | 2 +-
 decoder_compact-u16.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoder_bin.go b/decoder_bin.go
index 7bb8358..910a04e 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBin(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_borsh.go b/decoder_borsh.go
index 651fd6f..d51a555 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -28,7 +28,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionBorsh(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index b08006d..9f6f67b 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -27,7 +27,7 @@ import (
 
 func (dec *Decoder) decodeWithOptionCompactU16(v interface{}, option *option) (err error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidDecoderError{reflect.TypeOf(v)}
 	}
 
-- 
2.43.0


From abe8ea059958d657862f856fdbafcae9684cb6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:09 +0000
Subject: [PATCH 06/18] fix: encoding a map with tracing enabled panicked

---
 encoder_bin.go         | 2 +-
 encoder_compact-u16.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_bin.go b/encoder_bin.go
index 4ba95ec..938009d 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -167,7 +167,7 @@ func (e *Encoder) encodeBin(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: map",
 				zap.Int("key_count", keyCount),
 				zap.String("key_type", rt.String()),
-				typeField("value_type", rv.Elem()),
+				typeField("value_type", rv),
 			)
 			defer func(prev *zap.Logger) { zlog = prev }(zlog)
 			zlog = zlog.Named("struct")
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 2616177..1c7aa48 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -165,7 +165,7 @@ func (e *Encoder) encodeCompactU16(rv reflect.Value, opt *option) (err error) {
 			zlog.Debug("encode: map",
 				zap.Int("key_count", keyCount),
 				zap.String("key_type", rt.String()),
-				typeField("value_type", rv.Elem()),
+				typeField("value_type", rv),
 			)
 			defer func(prev *zap.Logger) { zlog = prev }(zlog)
 			zlog = zlog.Named("struct")
-- 
2.43.0


From aaa2c2971ca27007964fd0e02219063b45861c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 07/18] fix: borsh-encoding maps with named 64-bit or bool keys
 panicked

---
 encoder_borsh.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index c1cc611..8674c2a 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -377,14 +377,12 @@ func vComp(keys []reflect.Value) func(int, int) bool {
 			b = b.Elem()
 		}
 		switch a.Kind() {
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 			return a.Int() < b.Int()
-		case reflect.Int64:
-			return a.Interface().(int64) < b.Interface().(int64)
-		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			return a.Uint() < b.Uint()
-		case reflect.Uint64:
-			return a.Interface().(uint64) < b.Interface().(uint64)
+		case reflect.Bool:
+			return !a.Bool() && b.Bool()
 		case reflect.Float32, reflect.Float64:
 			return a.Float() < b.Float()
 		case reflect.String:
-- 
2.43.0


From 8ef5e913e2fb5e4f2edcb31d357144e8ae6db8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:12 +0000
Subject: [PATCH 08/18] fix: borsh encoder dropped field options (sizeof,
 order) behind pointers

---
 encoder_borsh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 8674c2a..16538f0 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -131,9 +131,9 @@ func (e *Encoder) encodeBorsh(rv reflect.Value, opt *option) (err error) {
 	case reflect.Ptr:
 		if rv.IsNil() {
 			el := reflect.New(rv.Type().Elem()).Elem()
-			return e.encodeBorsh(el, nil)
+			return e.encodeBorsh(el, opt)
 		} else {
-			return e.encodeBorsh(rv.Elem(), nil)
+			return e.encodeBorsh(rv.Elem(), opt)
 		}
 	case reflect.Interface:
 		// skip
-- 
2.43.0


From 941ac43ee7ce07e3fc8643ec6ebdb5f90f4622c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:48 +0000
Subject: [PATCH 09/18] fix: decoding an optional value-typed field with a
 custom unmarshaler panicked

---
 decoder_bin.go         | 5 +++++
 decoder_borsh.go       | 5 +++++
 decoder_compact-u16.go | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/decoder_bin.go b/decoder_bin.go
index 910a04e..03928db 100644
--- a/decoder_bin.go
+++ b/decoder_bin.go
@@ -47,7 +47,12 @@ func (dec *Decoder) decodeBin(rv reflect.Value, opt *option) (err error) {
 	}
 	dec.currentFieldOpt = opt
 
+	target := rv
 	unmarshaler, rv := indirect(rv, opt.is_Optional())
+	if unmarshaler != nil && opt.is_Optional() {
+		// The presence flag comes before anything the unmarshaler reads.
+		rv = target
+	}
 
 	if traceEnabled {
 		zlog.Debug("decode: type",
diff --git a/decoder_borsh.go b/decoder_borsh.go
index d51a555..303067d 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -47,7 +47,12 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 	}
 	dec.currentFieldOpt = opt
 
+	target := rv
 	unmarshaler, rv := indirect(rv, opt.is_Optional() || opt.is_COptional())
+	if unmarshaler != nil && (opt.is_Optional() || opt.is_COptional()) {
+		// The presence flag comes before anything the unmarshaler reads.
+		rv = target
+	}
 
 	if traceEnabled {
 		zlog.Debug("decode: type",
diff --git a/decoder_compact-u16.go b/decoder_compact-u16.go
index 9f6f67b..9a78add 100644
--- a/decoder_compact-u16.go
+++ b/decoder_compact-u16.go
@@ -46,7 +46,12 @@ func (dec *Decoder) decodeCompactU16(rv reflect.Value, opt *option) (err error)
 	}
 	dec.currentFieldOpt = opt
 
+	target := rv
 	unmarshaler, rv := indirect(rv, opt.is_Optional())
+	if unmarshaler != nil && opt.is_Optional() {
+		// The presence flag comes before anything the unmarshaler reads.
+		rv = target
+	}
 
 	if traceEnabled {
 		zlog.Debug("decode: type",
-- 
2.43.0


From 004c4f740bdbfb6ee53b94318f2d801c2e749313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:50 +0000
Subject: [PATCH 10/18] fix: borsh struct fields with custom unmarshalers
 ignored optional, order and sizeof tags

---
 decoder_borsh.go | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/decoder_borsh.go b/decoder_borsh.go
index 303067d..ee40d51 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -413,32 +413,6 @@ func (dec *Decoder) decodeStructBorsh(rt reflect.Type, rv reflect.Value) (err er
 			)
 		}
 
-		rt := v.Type()
-		ptrImplements := reflect.PtrTo(rt).Implements(unmarshalableType)
-		vImplements := rt.Implements(unmarshalableType)
-		if ptrImplements || vImplements {
-			switch {
-			case ptrImplements:
-				m := reflect.New(rt)
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val).Elem())
-				continue
-			case vImplements:
-				m := reflect.New(rt.Elem())
-				val := m.Interface()
-				err := val.(BinaryUnmarshaler).UnmarshalWithDecoder(dec)
-				if err != nil {
-					return err
-				}
-				v.Set(reflect.ValueOf(val))
-				continue
-			}
-		}
-
 		if err = dec.decodeBorsh(v, option); err != nil {
 			return fmt.Errorf("error while decoding %q field: %w", structField.Name, err)
 		}
-- 
2.43.0


From d4f9274398f6c225cf2aa3de15f6369db8fd7a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:51 +0000
Subject: [PATCH 11/18] fix: borsh enum variants that are neither structs nor
 primitives lost their payload

---
 encoder_borsh.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/encoder_borsh.go b/encoder_borsh.go
index 16538f0..2109920 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -257,20 +257,7 @@ func (enc *Encoder) encodeComplexEnumBorsh(rv reflect.Value) error {
 	if int(enum)+1 >= t.NumField() {
 		return errors.New("complex enum too large")
 	}
-	// Enum is empty
-	field := rv.Field(int(enum) + 1)
-	if field.Kind() == reflect.Ptr {
-		field = field.Elem()
-	}
-	if field.Kind() == reflect.Struct {
-		return enc.encodeStructBorsh(field.Type(), field)
-	}
-	// Encode the value if it's a primitive type
-	isPrimitive, err := enc.encodePrimitive(field, nil)
-	if isPrimitive {
-		return err
-	}
-	return nil
+	return enc.encodeBorsh(rv.Field(int(enum)+1), nil)
 }
 
 type BorshEnum uint8
-- 
2.43.0


From f2f2b818d46b7d5a04ee84af6960665c896368a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 12/18] fix: reject JSON 128-bit integers that are negative or
 too large instead of panicking or dropping the sign

---
 u128.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/u128.go b/u128.go
index 7ea82d9..ec66716 100644
--- a/u128.go
+++ b/u128.go
@@ -125,6 +125,9 @@ func (i *Uint128) unmarshalJSON_decimal(s string) error {
 	if !ok {
 		return fmt.Errorf("could not parse %q", s)
 	}
+	if parsed.Sign() < 0 || parsed.BitLen() > 128 {
+		return fmt.Errorf("%q is out of range for uint128", s)
+	}
 	oo := parsed.FillBytes(make([]byte, 16))
 	ReverseBytes(oo)
 
-- 
2.43.0


From af45fdb42a0fdc1d6a232edbb3d5e940dd998ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:19 +0000
Subject: [PATCH 13/18] fix: decimal JSON was byte-swapped for big-endian
 Uint128

---
 u128.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/u128.go b/u128.go
index ec66716..29b98f6 100644
--- a/u128.go
+++ b/u128.go
@@ -133,7 +133,8 @@ func (i *Uint128) unmarshalJSON_decimal(s string) error {
 
 	dec := NewBinDecoder(oo)
 
-	out, err := dec.ReadUint128(i.getByteOrder())
+	// The bytes were just reversed to little endian.
+	out, err := dec.ReadUint128(binary.LittleEndian)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b6fbeff8da9e38e0a072648f45b254c28e170903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 14/18] fix: 0x-prefixed JSON 128-bit integers panicked on 16
 hex digits and never parsed

---
 u128.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/u128.go b/u128.go
index 29b98f6..ffb663b 100644
--- a/u128.go
+++ b/u128.go
@@ -146,8 +146,8 @@ func (i *Uint128) unmarshalJSON_decimal(s string) error {
 
 func (i *Uint128) unmarshalJSON_hex(s string) error {
 	truncatedVal := s[2:]
-	if len(truncatedVal) != 16 {
-		return fmt.Errorf("uint128 expects 16 characters after 0x, had %v", len(truncatedVal))
+	if len(truncatedVal) != 32 {
+		return fmt.Errorf("uint128 expects 32 characters after 0x, had %v", len(truncatedVal))
 	}
 
 	data, err := hex.DecodeString(truncatedVal)
-- 
2.43.0


From d9987b2013bfe36f7c199d531699ab8f13c8a073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 15/18] fix: case conversion sliced words by rune index,
 corrupting non-ASCII names

---
 heck.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/heck.go b/heck.go
index 5053c1e..f785713 100644
--- a/heck.go
+++ b/heck.go
@@ -66,7 +66,7 @@ func transform(
 					}
 					{
 						// with_word(&word[init..next_i], f)?;
-						with_word(word[init:next_i], builder)
+						with_word(string(char_indices.runes[init:next_i]), builder)
 					}
 
 					first_word = false
@@ -84,7 +84,7 @@ func transform(
 					}
 					{
 						// with_word(&word[init..i], f)?;
-						with_word(word[init:i], builder)
+						with_word(string(char_indices.runes[init:i]), builder)
 					}
 					init = i
 					mode = _Boundary
@@ -104,7 +104,7 @@ func transform(
 				}
 				{
 					// with_word(&word[init..], f)?;
-					with_word(word[init:], builder)
+					with_word(string(char_indices.runes[init:]), builder)
 				}
 				break
 			}
@@ -131,7 +131,7 @@ func capitalize(s string, f *strings.Builder) {
 	if i, c := char_indices.Next(); i != -1 {
 		f.WriteString(strings.ToUpper(string(c)))
 		if i, _ := char_indices.Next(); i != -1 {
-			lowercase(s[i:], f)
+			lowercase(string(char_indices.runes[i:]), f)
 		}
 	}
 }
@@ -299,7 +299,7 @@ func ToRustSnakeCase(s string) string {
 					}
 					{
 						// with_word(&word[init..next_i], f)?;
-						builder.WriteString(strings.ToLower(word[init:next_i]))
+						builder.WriteString(strings.ToLower(string(char_indices.runes[init:next_i])))
 					}
 
 					first_word = false
@@ -317,7 +317,7 @@ func ToRustSnakeCase(s string) string {
 					}
 					{
 						// with_word(&word[init..i], f)?;
-						builder.WriteString(strings.ToLower(word[init:i]))
+						builder.WriteString(strings.ToLower(string(char_indices.runes[init:i])))
 					}
 					init = i
 					mode = _Boundary
@@ -337,7 +337,7 @@ func ToRustSnakeCase(s string) string {
 				}
 				{
 					// with_word(&word[init..], f)?;
-					builder.WriteString(strings.ToLower(word[init:]))
+					builder.WriteString(strings.ToLower(string(char_indices.runes[init:])))
 				}
 				break
 			}
-- 
2.43.0


From f9205b2e1f853df936491bcc0174230dffa5f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:41 +0000
Subject: [PATCH 16/18] fix: encoder took slice lengths from unexported sizeof
 fields it leaves out

---
 encoder_bin.go         | 12 ++++++------
 encoder_borsh.go       | 12 ++++++------
 encoder_compact-u16.go | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/encoder_bin.go b/encoder_bin.go
index 938009d..a118f7c 100644
--- a/encoder_bin.go
+++ b/encoder_bin.go
@@ -216,24 +216,24 @@ func (e *Encoder) encodeStructBin(rt reflect.Type, rv reflect.Value) (err error)
 
 		rv := rv.Field(i)
 
-		if fieldTag.SizeOf != "" {
+		if !rv.CanInterface() {
 			if traceEnabled {
-				zlog.Debug("encode: struct field has sizeof tag",
+				zlog.Debug("encode:  skipping field: unable to interface field, probably since field is not exported",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
 					zap.String("struct_field_name", structField.Name),
 				)
 			}
-			sizeOfMap[fieldTag.SizeOf] = sizeof(structField.Type, rv)
+			continue
 		}
 
-		if !rv.CanInterface() {
+		if fieldTag.SizeOf != "" {
 			if traceEnabled {
-				zlog.Debug("encode:  skipping field: unable to interface field, probably since field is not exported",
+				zlog.Debug("encode: struct field has sizeof tag",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
 					zap.String("struct_field_name", structField.Name),
 				)
 			}
-			continue
+			sizeOfMap[fieldTag.SizeOf] = sizeof(structField.Type, rv)
 		}
 
 		option := &option{
diff --git a/encoder_borsh.go b/encoder_borsh.go
index 2109920..c7bbf60 100644
--- a/encoder_borsh.go
+++ b/encoder_borsh.go
@@ -307,24 +307,24 @@ func (e *Encoder) encodeStructBorsh(rt reflect.Type, rv reflect.Value) (err erro
 
 		rv := rv.Field(i)
 
-		if fieldTag.SizeOf != "" {
+		if !rv.CanInterface() {
 			if traceEnabled {
-				zlog.Debug("encode: struct field has sizeof tag",
+				zlog.Debug("encode:  skipping field: unable to interface field, probably since field is not exported",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
 					zap.String("struct_field_name", structField.Name),
 				)
 			}
-			sizeOfMap[fieldTag.SizeOf] = sizeof(structField.Type, rv)
+			continue
 		}
 
-		if !rv.CanInterface() {
+		if fieldTag.SizeOf != "" {
 			if traceEnabled {
-				zlog.Debug("encode:  skipping field: unable to interface field, probably since field is not exported",
+				zlog.Debug("encode: struct field has sizeof tag",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
 					zap.String("struct_field_name", structField.Name),
 				)
 			}
-			continue
+			sizeOfMap[fieldTag.SizeOf] = sizeof(structField.Type, rv)
 		}
 
 		option := &option{
diff --git a/encoder_compact-u16.go b/encoder_compact-u16.go
index 1c7aa48..8ede684 100644
--- a/encoder_compact-u16.go
+++ b/encoder_compact-u16.go
@@ -214,24 +214,24 @@ func (e *Encoder) encodeStructCompactU16(rt reflect.Type, rv reflect.Value) (err
 
 		rv := rv.Field(i)
 
-		if fieldTag.SizeOf != "" {
+		if !rv.CanInterface() {
 			if traceEnabled {
-				zlog.Debug("encode: struct field has sizeof tag",
+				zlog.Debug("encode:  skipping field: unable to interface field, probably since field is not exported",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
 					zap.String("struct_field_name", structField.Name),
 				)
 			}
-			sizeOfMap[fieldTag.SizeOf] = sizeof(structField.Type, rv)
+			continue
 		}
 
-		if !rv.CanInterface() {
+		if fieldTag.SizeOf != "" {
 			if traceEnabled {
-				zlog.Debug("encode:  skipping field: unable to interface field, probably since field is not exported",
+				zlog.Debug("encode: struct field has sizeof tag",
 					zap.String("sizeof_field_name", fieldTag.SizeOf),
 					zap.String("struct_field_name", structField.Name),
 				)
 			}
-			continue
+			sizeOfMap[fieldTag.SizeOf] = sizeof(structField.Type, rv)
 		}
 
 		option := &option{
-- 
2.43.0


From 70027a60da350d9923ee647e7bb2f3562593a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:23 +0000
Subject: [PATCH 17/18] fix: decoding a complex enum with an unexported variant
 or enum field returns an error instead of panicking

---
 decoder_borsh.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder_borsh.go b/decoder_borsh.go
index ee40d51..aecc270 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -301,6 +301,9 @@ func (dec *Decoder) deserializeComplexEnum(rv reflect.Value) error {
 		return err
 	}
 	enum := BorshEnum(tmp)
+	if !rv.Field(0).CanSet() {
+		return fmt.Errorf("complex enum: field %q of %s is not exported", rt.Field(0).Name, rt)
+	}
 	rv.Field(0).Set(reflect.ValueOf(enum).Convert(rv.Field(0).Type()))
 
 	// read enum field, if necessary
@@ -308,6 +311,9 @@ func (dec *Decoder) deserializeComplexEnum(rv reflect.Value) error {
 		return errors.New("complex enum too large")
 	}
 	field := rv.Field(int(enum) + 1)
+	if !field.CanSet() {
+		return fmt.Errorf("complex enum: variant %q of %s is not exported", rt.Field(int(enum)+1).Name, rt)
+	}
 	return dec.decodeBorsh(field, nil)
 }
 
-- 
2.43.0


From c68324b63ab6762bcb8f908c96cf7178019faaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:55 +0000
Subject: [PATCH 18/18] fix: decoding a borsh field tagged both optional and
 coption panicked when its type has an unmarshaler

---
 decoder_borsh.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/decoder_borsh.go b/decoder_borsh.go
index aecc270..0ebe491 100644
--- a/decoder_borsh.go
+++ b/decoder_borsh.go
@@ -77,9 +77,6 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			rv.Set(reflect.Zero(rv.Type()))
 			return
 		}
-
-		// we have ptr here we should not go get the element
-		unmarshaler, rv = indirect(rv, false)
 	}
 	if opt.is_COptional() {
 		isPresent, e := dec.ReadCOption()
@@ -96,7 +93,8 @@ func (dec *Decoder) decodeBorsh(rv reflect.Value, opt *option) (err error) {
 			rv.Set(reflect.Zero(rv.Type()))
 			return
 		}
-
+	}
+	if opt.is_Optional() || opt.is_COptional() {
 		// we have ptr here we should not go get the element
 		unmarshaler, rv = indirect(rv, false)
 	}
-- 
2.43.0

