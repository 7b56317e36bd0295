From 4a3eefc7f7bda948177a0835d33459b9836a2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 01/64] fix: bencode: validate string lengths and do not
 allocate announced sizes up front

---
 bencode/decode.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 98dbaa3..91edede 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -123,23 +123,42 @@ func (d *Decoder) consume(buf *bytes.Buffer) error {
 	}
 }
 
+// parseLength parses a string length prefix, which consists of digits only.
+func parseLength(s string) (int, error) {
+	for i := range len(s) {
+		if !isDigit(s[i]) {
+			return 0, fmt.Errorf("invalid string length: %q", s)
+		}
+	}
+	return strconv.Atoi(s)
+}
+
+// readBytes reads exactly n bytes. Memory grows with the data that arrives,
+// not with the length that was announced.
+func (d *Decoder) readBytes(n int) ([]byte, error) {
+	var b bytes.Buffer
+	if _, err := io.CopyN(&b, d, int64(n)); err != nil {
+		return b.Bytes(), err
+	}
+	return b.Bytes(), nil
+}
+
 func (d *Decoder) consumeString(buf *bytes.Buffer) (string, error) {
 	lengthStr, err := d.ReadString(':')
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: unterminated string prefix: %w", err)
 	}
 	lengthStr = lengthStr[:len(lengthStr)-1]
-	length, err := strconv.Atoi(lengthStr)
+	length, err := parseLength(lengthStr)
 	if err != nil {
 		return "", d.newSyntaxError("consumeString: %w", err)
 	}
 	d.offset += len(lengthStr) + 1
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readBytes(length)
 	if err != nil {
-		return "", d.newSyntaxError("consumeString: unexpected string eof: %d < %d: %w", n, length, err)
+		return "", d.newSyntaxError("consumeString: unexpected string eof: %d < %d: %w", len(bytes), length, err)
 	}
-	d.offset += n
+	d.offset += length
 	if buf != nil {
 		buf.Write([]byte(lengthStr))
 		buf.WriteByte(':')
@@ -261,17 +280,16 @@ func (d *Decoder) decodeString(v reflect.Value) error {
 	if err != nil {
 		return d.newSyntaxError("decodeString: unterminated string prefix: %w", err)
 	}
-	length, err := strconv.Atoi(lengthStr[:len(lengthStr)-1])
+	length, err := parseLength(lengthStr[:len(lengthStr)-1])
 	if err != nil {
 		return d.newSyntaxError("decodeString: %w", err)
 	}
 	d.offset += len(lengthStr)
-	bytes := make([]byte, length)
-	n, err := io.ReadFull(d, bytes)
+	bytes, err := d.readBytes(length)
 	if err != nil {
-		return d.newSyntaxError("decodeString: unexpected string eof: %d < %d: %w", n, length, err)
+		return d.newSyntaxError("decodeString: unexpected string eof: %d < %d: %w", len(bytes), length, err)
 	}
-	d.offset += n
+	d.offset += length
 	if v.Kind() == reflect.Slice {
 		v.SetBytes(bytes)
 	} else {
-- 
2.43.0


From 6008003ec55faea053b1f6080c269e866b5fb3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 02/64] fix: bencode: allocate nil pointers in slices, maps and
 behind pointers when decoding

---
 bencode/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 91edede..bd03370 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -50,6 +50,12 @@ func (d *Decoder) newSyntaxError(t string, args ...any) error {
 var unmarshalerType = reflect.TypeFor[Unmarshaler]()
 
 func (d *Decoder) decode(v reflect.Value) error {
+	if v.Kind() == reflect.Pointer && v.IsNil() {
+		if !v.CanSet() {
+			return errors.New("bencode: cannot decode into nil pointer")
+		}
+		v.Set(reflect.New(v.Type().Elem()))
+	}
 	if v.Kind() != reflect.Pointer && reflect.PointerTo(v.Type()).Implements(unmarshalerType) && v.CanAddr() {
 		return d.decodeUnmarshaler(v.Addr())
 	}
-- 
2.43.0


From 80d9fe05725cacce496374b7c1cac3523a916daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 03/64] fix: bencode: replace values held by an interface that
 cannot be decoded into

---
 bencode/decode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index bd03370..60d8292 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -60,6 +60,10 @@ func (d *Decoder) decode(v reflect.Value) error {
 		return d.decodeUnmarshaler(v.Addr())
 	}
 	if v.Type().Implements(unmarshalerType) {
+		if v.Kind() == reflect.Interface && v.IsNil() {
+			// There is no concrete type to decode into.
+			return &UnsupportedTypeError{v.Type()}
+		}
 		return d.decodeUnmarshaler(v)
 	}
 	switch v.Kind() {
@@ -534,8 +538,8 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 }
 
 func (d *Decoder) decodeInterface(v reflect.Value) error {
-	if !v.IsNil() {
-		return d.decode(v.Elem())
+	if e := v.Elem(); !v.IsNil() && (e.CanSet() || (e.Kind() == reflect.Pointer || e.Kind() == reflect.Map) && !e.IsNil()) {
+		return d.decode(e)
 	} else if v.NumMethod() != 0 {
 		// Can only decode into an any.
 		return &UnsupportedTypeError{v.Type()}
-- 
2.43.0


From f992a9085e0494d8ed7d98ece11a103c33ee62d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 04/64] fix: bencode: report nil embedded pointers to
 unexported structs instead of panicking

---
 bencode/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index 60d8292..8074467 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -524,6 +524,9 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 			elem = elem.Field(i)
 			if elem.Kind() == reflect.Pointer {
 				if elem.IsNil() {
+					if !elem.CanSet() {
+						return errors.New("bencode: cannot set embedded pointer to unexported struct: " + elem.Type().String())
+					}
 					elem.Set(reflect.New(elem.Type().Elem()))
 				}
 				elem = elem.Elem()
-- 
2.43.0


From fc841b2f8b4b78f4d7020f65cd63f23ca861f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 05/64] fix: bencode: accept the empty string as first
 dictionary key

---
 bencode/decode.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 8074467..b6059f2 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -254,7 +254,7 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 	if buf != nil {
 		buf.WriteByte('d')
 	}
-	lastKey := ""
+	lastKey, first := "", true
 	for {
 		c, err := d.ReadByte()
 		if err != nil {
@@ -270,10 +270,10 @@ func (d *Decoder) consumeDictionary(buf *bytes.Buffer) error {
 		if err != nil {
 			return err
 		}
-		if lastKey >= key {
+		if !first && lastKey >= key {
 			return errors.New("consumeDictionary: dictionary keys not sorted")
 		}
-		lastKey = key
+		lastKey, first = key, false
 		if err := d.consume(buf); err != nil {
 			return err
 		}
@@ -444,7 +444,7 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 	if v.IsNil() {
 		v.Set(reflect.MakeMap(t))
 	}
-	lastKey := ""
+	lastKey, first := "", true
 	for {
 		c, err := d.ReadByte()
 		if err != nil {
@@ -460,10 +460,10 @@ func (d *Decoder) decodeMap(v reflect.Value) error {
 		if err := d.decodeString(key); err != nil {
 			return err
 		}
-		if lastKey >= key.String() {
+		if !first && lastKey >= key.String() {
 			return errors.New("decodeMap: dictionary keys not sorted")
 		}
-		lastKey = key.String()
+		lastKey, first = key.String(), false
 		elem := reflect.New(et)
 		// Pass the pointer to check for a unmarshaler with a pointer receiver.
 		if err := d.decode(elem); err != nil {
@@ -492,7 +492,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 	}
 	d.offset += 1
 	keyToField := getFieldsForStruct(v).keyToField
-	lastKey := ""
+	lastKey, first := "", true
 	for {
 		c, err := d.ReadByte()
 		if err != nil {
@@ -508,10 +508,10 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 		if err := d.decodeString(key); err != nil {
 			return err
 		}
-		if lastKey >= key.String() {
+		if !first && lastKey >= key.String() {
 			return errors.New("decodeStruct: dictionary keys not sorted")
 		}
-		lastKey = key.String()
+		lastKey, first = key.String(), false
 		field, ok := keyToField[key.String()]
 		if !ok {
 			if err := d.consume(nil); err != nil {
-- 
2.43.0


From b5a42fc3b1959e2f06d568d7b3fab68e9fc39e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 06/64] fix: bencode: do not decode into fields the encoder
 ignores because of conflicts

---
 bencode/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index b6059f2..ad3fd13 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -513,7 +513,7 @@ func (d *Decoder) decodeStruct(v reflect.Value) error {
 		}
 		lastKey, first = key.String(), false
 		field, ok := keyToField[key.String()]
-		if !ok {
+		if !ok || field.ignored {
 			if err := d.consume(nil); err != nil {
 				return err
 			}
-- 
2.43.0


From d53ec51fa62c876a5ce4b3fa67c55c1070b24aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 07/64] fix: bencode: report integers that overflow the
 destination

---
 bencode/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bencode/decode.go b/bencode/decode.go
index ad3fd13..3e84670 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -343,6 +343,9 @@ func (d *Decoder) decodeInt(v reflect.Value) error {
 		return d.newSyntaxError("decodeInt: %w", err)
 	}
 	d.offset += len(intStr) + 1
+	if v.OverflowInt(i) {
+		return d.newSyntaxError("decodeInt: %d overflows %s", i, v.Type())
+	}
 	v.SetInt(i)
 	return nil
 }
@@ -369,6 +372,9 @@ func (d *Decoder) decodeUint(v reflect.Value) error {
 		return d.newSyntaxError("decodeUint: %w", err)
 	}
 	d.offset += len(intStr) + 1
+	if v.OverflowUint(i) {
+		return d.newSyntaxError("decodeUint: %d overflows %s", i, v.Type())
+	}
 	v.SetUint(i)
 	return nil
 }
-- 
2.43.0


From e6b88d76807648dfe95f9d3e128a50464813789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 08/64] fix: bencode: bound recursion in the decoder and
 through pointers in the encoder

---
 bencode/decode.go | 13 +++++++++++++
 bencode/encode.go | 13 +++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 3e84670..0362ae3 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -19,8 +19,13 @@ func Unmarshal(b []byte, v any) error {
 type Decoder struct {
 	*bufio.Reader
 	offset int
+	depth  int
 }
 
+const depthLimit = 10000
+
+var errDepth = errors.New("bencode: maximum nesting depth exceeded")
+
 func NewDecoder(r io.Reader) *Decoder {
 	if br, ok := r.(*bufio.Reader); ok {
 		return &Decoder{Reader: br}
@@ -50,6 +55,10 @@ func (d *Decoder) newSyntaxError(t string, args ...any) error {
 var unmarshalerType = reflect.TypeFor[Unmarshaler]()
 
 func (d *Decoder) decode(v reflect.Value) error {
+	if d.depth++; d.depth > depthLimit {
+		return errDepth
+	}
+	defer func() { d.depth-- }()
 	if v.Kind() == reflect.Pointer && v.IsNil() {
 		if !v.CanSet() {
 			return errors.New("bencode: cannot decode into nil pointer")
@@ -110,6 +119,10 @@ func isDigit(b byte) bool {
 }
 
 func (d *Decoder) consume(buf *bytes.Buffer) error {
+	if d.depth++; d.depth > depthLimit {
+		return errDepth
+	}
+	defer func() { d.depth-- }()
 	b, err := d.ReadByte()
 	if err != nil {
 		return err
diff --git a/bencode/encode.go b/bencode/encode.go
index 5be9af2..e8e377e 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -23,10 +23,14 @@ func Marshal(v any) ([]byte, error) {
 
 type Encoder struct {
 	io.Writer
-	ptrDepth int
+	ptrDepth     int
+	indirections int
 }
 
-const ptrDepthLimit = 1000
+const (
+	ptrDepthLimit     = 1000
+	indirectionsLimit = 10 * ptrDepthLimit
+)
 
 func NewEncoder(w io.Writer) *Encoder {
 	return &Encoder{Writer: w}
@@ -88,6 +92,11 @@ func (e *Encoder) encode(v reflect.Value) error {
 		if v.IsNil() {
 			return nil
 		}
+		// Pointers and interfaces can refer to themselves, too.
+		if e.indirections++; e.indirections > indirectionsLimit {
+			return errors.New("bencode: maximum pointer depth exceeded")
+		}
+		defer func() { e.indirections-- }()
 		return e.encode(v.Elem())
 	default:
 		return &UnsupportedTypeError{v.Type()}
-- 
2.43.0


From 5052f5146e7f28b76471bbbd2d85e0451e5829e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 09/64] fix: bencode: do not write dictionary keys without a
 value

---
 bencode/encode.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/bencode/encode.go b/bencode/encode.go
index e8e377e..3ee9e63 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -194,6 +194,24 @@ func (e *Encoder) encodeSlice(v reflect.Value) error {
 	return nil
 }
 
+// encodeEntry writes a dictionary entry. Values without an encoding (nil, or
+// a Marshaler that has nothing to write) have no entry.
+func (e *Encoder) encodeEntry(key string, v reflect.Value) error {
+	var b bytes.Buffer
+	w := e.Writer
+	e.Writer = &b
+	err := e.encode(v)
+	e.Writer = w
+	if err != nil || b.Len() == 0 {
+		return err
+	}
+	if err := e.encodeString(reflect.ValueOf(key)); err != nil {
+		return err
+	}
+	_, err = e.Write(b.Bytes())
+	return err
+}
+
 func (e *Encoder) encodeMap(v reflect.Value) error {
 	if v.IsNil() {
 		return nil
@@ -212,10 +230,7 @@ func (e *Encoder) encodeMap(v reflect.Value) error {
 		return strings.Compare(a.String(), b.String())
 	})
 	for _, key := range keys {
-		if err := e.encodeString(key); err != nil {
-			return err
-		}
-		if err := e.encode(v.MapIndex(key)); err != nil {
+		if err := e.encodeEntry(key.String(), v.MapIndex(key)); err != nil {
 			return err
 		}
 	}
@@ -418,10 +433,7 @@ func (e *Encoder) encodeStruct(v reflect.Value) error {
 		if f.omitempty && isEmptyValue(fv) {
 			continue
 		}
-		if err := e.encodeString(reflect.ValueOf(f.key)); err != nil {
-			return err
-		}
-		if err := e.encode(fv); err != nil {
+		if err := e.encodeEntry(f.key, fv); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From bb146eff3d155ee8d334a410a512eef9c7fcb375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 10/64] fix: bencode: encode nil and nil Marshalers to nothing
 instead of panicking

---
 bencode/encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bencode/encode.go b/bencode/encode.go
index 3ee9e63..f74e191 100644
--- a/bencode/encode.go
+++ b/bencode/encode.go
@@ -37,6 +37,9 @@ func NewEncoder(w io.Writer) *Encoder {
 }
 
 func (e *Encoder) Encode(v any) error {
+	if v == nil {
+		return nil
+	}
 	return e.encode(reflect.ValueOf(v))
 }
 
@@ -104,6 +107,9 @@ func (e *Encoder) encode(v reflect.Value) error {
 }
 
 func (e *Encoder) encodeMarshaler(v reflect.Value) error {
+	if (v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface) && v.IsNil() {
+		return nil
+	}
 	m, ok := v.Interface().(Marshaler)
 	if !ok {
 		panic("passed value does not implement Marshaler")
-- 
2.43.0


From a1fa9a66f8fb168b6253b2f41fd4852c8cb4e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 11/64] fix: bencode: accept the same integers when skipping as
 when decoding

---
 bencode/decode.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bencode/decode.go b/bencode/decode.go
index 0362ae3..814809c 100644
--- a/bencode/decode.go
+++ b/bencode/decode.go
@@ -204,10 +204,14 @@ func (d *Decoder) consumeInt(buf *bytes.Buffer) error {
 		return d.newSyntaxError("consumeInt: unterminated int: %w", err)
 	}
 	intStr = intStr[:len(intStr)-1]
-	if leadingZero(intStr) {
+	if nonCanonical(intStr) {
 		return d.newSyntaxError("consumeInt: invalid int: %s", intStr)
 	}
 	_, err = strconv.ParseInt(intStr, 10, 64)
+	if err != nil {
+		// Unsigned integers are decoded, too.
+		_, err = strconv.ParseUint(intStr, 10, 64)
+	}
 	if err != nil {
 		return d.newSyntaxError("consumeInt: %w", err)
 	}
@@ -321,10 +325,13 @@ func (d *Decoder) decodeString(v reflect.Value) error {
 	return nil
 }
 
-func leadingZero(intStr string) bool {
+func nonCanonical(intStr string) bool {
 	if len(intStr) == 0 {
 		return false
 	}
+	if intStr[0] == '+' {
+		return true
+	}
 	if intStr[0] == '0' {
 		return len(intStr) > 1
 	}
@@ -348,7 +355,7 @@ func (d *Decoder) decodeInt(v reflect.Value) error {
 		return d.newSyntaxError("decodeInt: unterminated int: %w", err)
 	}
 	intStr = intStr[:len(intStr)-1]
-	if leadingZero(intStr) {
+	if nonCanonical(intStr) {
 		return d.newSyntaxError("decodeInt: invalid int: %s", intStr)
 	}
 	i, err := strconv.ParseInt(intStr, 10, 64)
@@ -377,7 +384,7 @@ func (d *Decoder) decodeUint(v reflect.Value) error {
 		return d.newSyntaxError("decodeUint: unterminated int: %w", err)
 	}
 	intStr = intStr[:len(intStr)-1]
-	if leadingZero(intStr) {
+	if nonCanonical(intStr) {
 		return d.newSyntaxError("decodeUint: invalid int: %s", intStr)
 	}
 	i, err := strconv.ParseUint(intStr, 10, 64)
-- 
2.43.0


From 944c7257516b99366d838d755489310af37079c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 12/64] fix: api/peer: do not treat an empty first read as a
 handshake

---
 api/peer/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index 2b3713e..cf0653b 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -67,7 +67,7 @@ func (h *Handshake) MarshalBinary() ([]byte, error) {
 
 func (h *Handshake) Decode(r io.Reader) error {
 	data := make([]byte, HandshakeLength)
-	if _, err := r.Read(data[:1]); err != nil {
+	if _, err := io.ReadFull(r, data[:1]); err != nil {
 		return err
 	}
 	protocolLen := int(data[0])
-- 
2.43.0


From 81e50990ec0af4cccc6b7ea71d8578edd8bc3996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 13/64] fix: api/peer: bound the length of received messages

---
 api/peer/peer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index cf0653b..daca267 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -91,6 +91,10 @@ func (h *Handshake) UnmarshalBinary(data []byte) error {
 	return h.Decode(bytes.NewReader(data))
 }
 
+// MaxMessageLength bounds the length prefix of received messages, so that a
+// remote peer cannot make us allocate arbitrary amounts of memory.
+const MaxMessageLength = 1 << 24
+
 type MessageType int
 
 const (
@@ -354,6 +358,9 @@ func (m *Message) Decode(r io.Reader) error {
 		m.Type = KEEPALIVE
 		return nil
 	}
+	if length > MaxMessageLength {
+		return fmt.Errorf("message too long: %d > %d", length, MaxMessageLength)
+	}
 	payload := make([]byte, length)
 	if _, err := io.ReadFull(r, payload); err != nil {
 		return err
-- 
2.43.0


From 9b7ad43a79e98c23ffca55991223ecf6229efe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 14/64] fix: api/peer: report bad payload lengths instead of
 panicking

---
 api/peer/peer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index daca267..8cfc9f3 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -369,15 +369,27 @@ func (m *Message) Decode(r io.Reader) error {
 	payload = payload[1:]
 	switch m.Type {
 	case CHOKE, UNCHOKE, INTERESTED, NOT_INTERESTED:
+		if len(payload) != 0 {
+			return fmt.Errorf("bad %s payload length: %d", m.Type, len(payload))
+		}
 	case BITFIELD:
 		m.bitfield = payload
 	case HAVE:
+		if len(payload) != 4 {
+			return fmt.Errorf("bad %s payload length: %d", m.Type, len(payload))
+		}
 		m.index = int(binary.BigEndian.Uint32(payload[0:4]))
 	case REQUEST, CANCEL:
+		if len(payload) != 12 {
+			return fmt.Errorf("bad %s payload length: %d", m.Type, len(payload))
+		}
 		m.index = int(binary.BigEndian.Uint32(payload[0:4]))
 		m.begin = int(binary.BigEndian.Uint32(payload[4:8]))
 		m.length = int(binary.BigEndian.Uint32(payload[8:12]))
 	case PIECE:
+		if len(payload) < 8 {
+			return fmt.Errorf("bad %s payload length: %d", m.Type, len(payload))
+		}
 		m.index = int(binary.BigEndian.Uint32(payload[0:4]))
 		m.begin = int(binary.BigEndian.Uint32(payload[4:8]))
 		m.piece = payload[8:]
-- 
2.43.0


From f82d6e859068caef69630996c2046996a3a79f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 15/64] fix: api/peer: do not silently encode unknown message
 types to nothing

---
 api/peer/peer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/peer/peer.go b/api/peer/peer.go
index 8cfc9f3..2af18ac 100644
--- a/api/peer/peer.go
+++ b/api/peer/peer.go
@@ -321,6 +321,8 @@ func (m *Message) Encode(w io.Writer) error {
 		binary.BigEndian.PutUint32(fixedData[5:9], uint32(m.index))
 		binary.BigEndian.PutUint32(fixedData[9:13], uint32(m.begin))
 		variableData = m.piece
+	default:
+		return fmt.Errorf("unknown message type: %d", int(m.Type))
 	}
 	n, err := w.Write(fixedData)
 	if err != nil {
-- 
2.43.0


From 68e6d6dab202d971d9d0d384e10832e91d940ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 16/64] fix: bitfield: Has of an index outside the bitfield is
 false

---
 bitfield/bitfield.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitfield/bitfield.go b/bitfield/bitfield.go
index 3ff6b4a..3183783 100644
--- a/bitfield/bitfield.go
+++ b/bitfield/bitfield.go
@@ -11,6 +11,9 @@ func New(n int) Bitfield {
 }
 
 func (b Bitfield) Has(i int) bool {
+	if i < 0 || i >= 8*len(b) {
+		return false
+	}
 	bi := i / 8
 	bj := 7 - (i % 8)
 	return b[bi]&(1<<bj) != 0
-- 
2.43.0


From eddb2e157c38ca9ad3ffd134be85045e18e84346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 17/64] fix: api/tracker: report malformed peers instead of
 panicking

---
 api/tracker/tracker.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index 364d879..e38f190 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -189,11 +189,24 @@ func parseCompactPeers(compact string) ([]*Peer, error) {
 func parsePeers(peerMaps []any) ([]*Peer, error) {
 	var peers []*Peer
 	for _, m := range peerMaps {
-		m := m.(map[string]any)
+		m, ok := m.(map[string]any)
+		if !ok {
+			return nil, errors.New("peer is not a dictionary")
+		}
+		ip, ok := m["ip"].(string)
+		if !ok {
+			return nil, errors.New(`peer "ip" is not a string`)
+		}
+		port, ok := m["port"].(int)
+		if !ok {
+			return nil, errors.New(`peer "port" is not an integer`)
+		}
+		// not sent with no_peer_id
+		id, _ := m["peer id"].(string)
 		peer := &Peer{
-			ID:   m["peer id"].(string),
-			IP:   m["ip"].(string),
-			Port: m["port"].(int),
+			ID:   id,
+			IP:   ip,
+			Port: port,
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From a96b9f1e4057ec80f7656926bb42e32bd896b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 18/64] fix: api/tracker: encode empty peers as an empty list

---
 api/tracker/tracker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index e38f190..d43c4d1 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -130,6 +130,10 @@ func (p *Peers) MarshalBencoding() ([]byte, error) {
 		}
 		return bencode.Marshal(compact)
 	}
+	if p.List == nil {
+		// nil is not encoded at all, but an empty list is
+		return bencode.Marshal([]*Peer{})
+	}
 	return bencode.Marshal(p.List)
 }
 
-- 
2.43.0


From a8bbe30fb05a911d0268acfa6273bc978a683d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 19/64] fix: p2p: do not panic on tracker responses without
 peers or a usable interval

---
 p2p/multitracker.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index f0adc4e..c1a74b5 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -77,6 +77,12 @@ type Tracker struct {
 	server *Server
 }
 
+// Announce intervals in seconds, used when a tracker does not send a usable one.
+const (
+	defaultInterval = 30 * 60
+	maxInterval     = 24 * 60 * 60
+)
+
 type eventName string
 
 const (
@@ -133,5 +139,11 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if res.FailureReason != "" {
 		return nil, errors.New("tracker: request failed: " + res.FailureReason)
 	}
+	if res.Interval <= 0 || res.Interval > maxInterval {
+		res.Interval = defaultInterval
+	}
+	if res.Peers == nil {
+		res.Peers = &trackerapi.Peers{}
+	}
 	return res, nil
 }
-- 
2.43.0


From da292bb514d4da6a1b00a4386c12e454ca083454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 20/64] fix: p2p: report the bytes left of multi-file torrents
 to trackers

---
 p2p/multitracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index c1a74b5..e3baccb 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -115,7 +115,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		Port:       mt.server.Port,
 		Uploaded:   mt.server.Uploaded(),
 		Downloaded: mt.server.Downloaded(),
-		Left:       mt.server.Info.Length - mt.server.Storage.Downloaded(),
+		Left:       mt.server.Info.GetLength() - mt.server.Storage.Downloaded(),
 		Event:      string(event),
 		Compact:    true,
 	}
-- 
2.43.0


From 1fae51f666000e7e1d9aec0d995dc7b0531aa6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 21/64] fix: p2p: close tracker response bodies

---
 p2p/multitracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index e3baccb..d6a7356 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -128,6 +128,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer httpRes.Body.Close()
 	data, err := io.ReadAll(httpRes.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4ee6f8b10d31e18751808c42d33b005d6eda2652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 22/64] fix: p2p: report an error when there is no tracker to
 announce to

---
 p2p/multitracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index d6a7356..e8892c0 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -58,6 +58,7 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 }
 
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
+	err = errors.New("tracker: no trackers")
 	for _, tier := range mt.TrackerTiers {
 		for j, tracker := range tier {
 			res, err = tracker.get(event)
-- 
2.43.0


From c9b01c8b5eeeeeb6ac41b919b0734297f0d1dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 23/64] fix: p2p: bound the duration of tracker requests

---
 p2p/multitracker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index e8892c0..c72faa6 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"net/url"
 	"slices"
+	"time"
 
 	"github.com/browles/drip/api/metainfo"
 	trackerapi "github.com/browles/drip/api/tracker"
@@ -84,6 +85,8 @@ const (
 	maxInterval     = 24 * 60 * 60
 )
 
+var httpClient = &http.Client{Timeout: 30 * time.Second}
+
 type eventName string
 
 const (
@@ -125,7 +128,7 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 		return nil, err
 	}
 	url.RawQuery = req.Encode()
-	httpRes, err := http.Get(url.String())
+	httpRes, err := httpClient.Get(url.String())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 8a0b3b88c2f3c0de843b2a890e86c80de955700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 24/64] fix: p2p: do not race on the order of trackers

---
 p2p/multitracker.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index c72faa6..dda77bc 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"net/url"
 	"slices"
+	"sync"
 	"time"
 
 	"github.com/browles/drip/api/metainfo"
@@ -17,6 +18,7 @@ import (
 
 // https://www.bittorrent.org/beps/bep_0012.html
 type Multitracker struct {
+	mu           sync.Mutex
 	TrackerTiers [][]*Tracker
 }
 
@@ -60,12 +62,11 @@ func (mt *Multitracker) Announce() (*trackerapi.Response, error) {
 
 func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err error) {
 	err = errors.New("tracker: no trackers")
-	for _, tier := range mt.TrackerTiers {
-		for j, tracker := range tier {
+	for i := range mt.TrackerTiers {
+		for _, tracker := range mt.tier(i) {
 			res, err = tracker.get(event)
 			if err == nil {
-				copy(tier[1:j+1], tier[0:j])
-				tier[0] = tracker
+				mt.promote(i, tracker)
 				return
 			}
 			slog.Error("get", "err", err)
@@ -74,6 +75,23 @@ func (mt *Multitracker) get(event eventName) (res *trackerapi.Response, err erro
 	return
 }
 
+// tier returns a snapshot of a tier, which concurrent announces may reorder.
+func (mt *Multitracker) tier(i int) []*Tracker {
+	mt.mu.Lock()
+	defer mt.mu.Unlock()
+	return slices.Clone(mt.TrackerTiers[i])
+}
+
+// promote moves a tracker that responded to the front of its tier.
+func (mt *Multitracker) promote(i int, tracker *Tracker) {
+	mt.mu.Lock()
+	defer mt.mu.Unlock()
+	tier := mt.TrackerTiers[i]
+	j := slices.Index(tier, tracker)
+	copy(tier[1:j+1], tier[0:j])
+	tier[0] = tracker
+}
+
 type Tracker struct {
 	URL    string
 	server *Server
-- 
2.43.0


From 6feb68873678e01cb92c09e3b8cbe07e8284c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 25/64] fix: api/tracker: report ports that do not fit the
 compact form

---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index d43c4d1..b9a17a7 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -145,6 +145,9 @@ func compactPeers(peers []*Peer) ([]byte, error) {
 		if ip == nil {
 			return nil, fmt.Errorf(`peer "ip" is not an ipv4: %+v`, p.IP)
 		}
+		if p.Port < 0 || p.Port > 65535 {
+			return nil, fmt.Errorf(`peer "port" out of range: %d`, p.Port)
+		}
 		b[i] = ip[0]
 		b[i+1] = ip[1]
 		b[i+2] = ip[2]
-- 
2.43.0


From e54360c125106ff1ac97cb9b90f97cd117679893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 26/64] fix: pex: reject ports outside the valid range

---
 pex/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index 5051d25..a224f6e 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -102,7 +102,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		fail(errors.New("bad ip"))
 		return
 	}
-	if r.Port == 0 {
+	if r.Port <= 0 || r.Port > 65535 {
 		fail(errors.New("bad port"))
 		return
 	}
-- 
2.43.0


From a79de83b359f89666ae4137a77f7e07bda1b3cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 27/64] fix: pex: keep peers under their canonical IP address

---
 pex/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index a224f6e..6b483a7 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -114,7 +114,7 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		peer = &Peer{
 			tp: &trackerapi.Peer{
 				ID:   string(r.PeerID[:]),
-				IP:   ip,
+				IP:   netIP.String(),
 				Port: r.Port,
 			},
 		}
-- 
2.43.0


From 466fc1381f3548525f7950ff175f2c6d42ff236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 28/64] fix: pex: leave peers without an IPv4 address out of
 compact responses

---
 pex/http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pex/http.go b/pex/http.go
index 6b483a7..a2dd18d 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -127,6 +127,10 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 		if p.LastEvent == "stopped" || time.Since(p.UpdatedAt) > time.Minute {
 			continue
 		}
+		if r.Compact && net.ParseIP(p.tp.IP).To4() == nil {
+			// compact peers are IPv4 only
+			continue
+		}
 		paddr := fmt.Sprintf("%s:%d", p.tp.IP, p.tp.Port)
 		if paddr != addr {
 			peers.List = append(peers.List, p.tp)
-- 
2.43.0


From 78acc16df713e529e1c72dd76955ba0c28ff7eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 29/64] fix: future: do not panic when delivering more than
 once

---
 future/future.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/future/future.go b/future/future.go
index 5ab841c..70db518 100644
--- a/future/future.go
+++ b/future/future.go
@@ -1,7 +1,10 @@
 package future
 
+import "sync"
+
 type Future[T any] struct {
 	Done  chan struct{}
+	once  sync.Once
 	value T
 }
 
@@ -9,9 +12,12 @@ func New[T any]() *Future[T] {
 	return &Future[T]{Done: make(chan struct{})}
 }
 
+// Deliver resolves the future. Only the first value is delivered.
 func (p *Future[T]) Deliver(value T) {
-	p.value = value
-	close(p.Done)
+	p.once.Do(func() {
+		p.value = value
+		close(p.Done)
+	})
 }
 
 func (p *Future[T]) Wait() T {
-- 
2.43.0


From ae9ec12421aed633e6fae5d3ee0239269bc14586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 30/64] fix: storage: do not reset pieces that are complete

---
 storage/torrent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storage/torrent.go b/storage/torrent.go
index 2a5bfa7..145eee5 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -102,6 +102,9 @@ func (p *Piece) Wait() error {
 }
 
 func (p *Piece) reset() {
+	if p.coalesced {
+		return
+	}
 	p.err.Deliver(errors.New("storage: piece reset"))
 	p.err = future.New[error]()
 	p.blocks = nil
-- 
2.43.0


From 43c0c27cffb2f92ba0b0b7557300eed35215189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 31/64] fix: storage: take locks in the same order when putting
 and getting blocks

---
 storage/storage.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 5214f08..fa64d2a 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -114,20 +114,17 @@ func (s *Storage) PutBlock(index, begin int, data []byte) error {
 	if err := checkBlockSize(s.Torrent.Info, index, begin, len(data)); err != nil {
 		return err
 	}
-	s.Torrent.mu.RLock()
+	s.Torrent.mu.Lock()
+	defer s.Torrent.mu.Unlock()
 	if s.Torrent.coalesced {
-		s.Torrent.mu.RUnlock()
 		return ErrBlockExists
 	}
-	s.Torrent.mu.RUnlock()
 	piece := s.Torrent.pieces[index]
 	piece.mu.Lock()
 	defer piece.mu.Unlock()
 	if err := piece.putBlock(begin, data); err != nil {
 		return err
 	}
-	s.Torrent.mu.Lock()
-	defer s.Torrent.mu.Unlock()
 	if err := s.coalesceBlocks(piece); err != nil {
 		s.downloaded.Add(int64(piece.Length))
 		piece.err.Deliver(err)
-- 
2.43.0


From 047e1926bdb309e1c26bfbd8ace378789679754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:31 +0000
Subject: [PATCH 32/64] fix: storage: count downloaded bytes when a piece is
 complete, not when it fails

---
 storage/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/storage.go b/storage/storage.go
index fa64d2a..eb79cc9 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -126,7 +126,6 @@ func (s *Storage) PutBlock(index, begin int, data []byte) error {
 		return err
 	}
 	if err := s.coalesceBlocks(piece); err != nil {
-		s.downloaded.Add(int64(piece.Length))
 		piece.err.Deliver(err)
 		return err
 	}
@@ -274,6 +273,7 @@ func (s *Storage) coalesceBlocks(piece *Piece) error {
 		return err
 	}
 	s.Torrent.completePiece(piece)
+	s.downloaded.Add(int64(piece.Length))
 	return nil
 }
 
-- 
2.43.0


From 20e61530f5521e246122ee5b401582ed898070ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 33/64] fix: storage: report blocks outside of the torrent
 instead of panicking

---
 storage/storage.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index eb79cc9..7a3bf16 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -95,6 +95,12 @@ func (s *Storage) ResetPiece(index int) *Piece {
 
 func (s *Storage) GetBlock(index, begin, length int) ([]byte, error) {
 	slog.Debug("GetBlock", "name", s.Torrent.Info.Name, "index", index, "begin", begin, "length", length)
+	if index < 0 || index >= len(s.Torrent.Info.Pieces) {
+		return nil, fmt.Errorf("storage: bad piece index: %d", index)
+	}
+	if begin < 0 || length < 0 || length > s.Torrent.Info.GetPieceLength(index)-begin {
+		return nil, fmt.Errorf("storage: block outside of piece: begin=%d length=%d", begin, length)
+	}
 	s.Torrent.mu.RLock()
 	defer s.Torrent.mu.RUnlock()
 	if s.Torrent.coalesced {
@@ -221,10 +227,16 @@ func (s *Storage) getBlockFromPiece(piece *Piece, begin, length int) ([]byte, er
 }
 
 func checkBlockSize(info *metainfo.Info, index, begin, length int) error {
+	if index < 0 || index >= len(info.Pieces) {
+		return fmt.Errorf("storage: bad piece index: %d", index)
+	}
 	if begin%BLOCK_LENGTH != 0 {
 		return fmt.Errorf("storage: misaligned block: %d %% %d != 0", begin, BLOCK_LENGTH)
 	}
 	pieceLength := info.GetPieceLength(index)
+	if begin < 0 || begin >= pieceLength {
+		return fmt.Errorf("storage: block outside of piece: %d >= %d", begin, pieceLength)
+	}
 	expectedBlockLength := BLOCK_LENGTH
 	lastBlock := BLOCK_LENGTH * (pieceLength / BLOCK_LENGTH)
 	if begin == lastBlock {
-- 
2.43.0


From 1e37239b26a92802ec241af09345b306b3729675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 34/64] fix: storage: only load files that are pieces of the
 torrent

---
 storage/storage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storage/storage.go b/storage/storage.go
index 7a3bf16..56ed636 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -62,10 +62,16 @@ func (s *Storage) Load() error {
 				if err != nil {
 					continue
 				}
+				if i < 0 || i >= len(s.Torrent.pieces) || dr.Name() != s.Torrent.pieces[i].FileName() {
+					continue
+				}
 				st, err := os.Stat(filepath.Join(s.WorkDir, s.Torrent.WorkDir(), dr.Name()))
 				if err != nil {
 					return err
 				}
+				if st.Size() != int64(s.Torrent.pieces[i].Length) {
+					continue
+				}
 				s.downloaded.Add(st.Size())
 				s.Torrent.completePiece(s.Torrent.pieces[i])
 			}
-- 
2.43.0


From 38ccd8ff229bed2f24bb8440ab1c12851a7f3ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 35/64] fix: storage: do not count the size of a directory as
 downloaded

---
 storage/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 56ed636..0acff37 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -38,7 +38,7 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
-	st, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
+	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
 	}
@@ -48,7 +48,7 @@ func (s *Storage) Load() error {
 			s.Torrent.completePiece(s.Torrent.pieces[i])
 		}
 		s.Torrent.complete()
-		s.downloaded.Add(st.Size())
+		s.downloaded.Add(s.Torrent.Info.GetLength())
 	} else {
 		// Check for complete pieces on disk
 		direntries, err := os.ReadDir(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
-- 
2.43.0


From 67e66daf1371c80e7a4a79299e0edfc7ac83d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 36/64] fix: storage: hold the locks while loading, and load
 pieces once

---
 storage/storage.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 0acff37..96b624c 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -38,6 +38,11 @@ func New(targetDir, workDir string, info *metainfo.Info) *Storage {
 }
 
 func (s *Storage) Load() error {
+	s.Torrent.mu.Lock()
+	defer s.Torrent.mu.Unlock()
+	if s.Torrent.coalesced {
+		return nil
+	}
 	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
@@ -45,10 +50,9 @@ func (s *Storage) Load() error {
 	if err == nil {
 		// Complete torrent exists on disk
 		for i := range len(s.Torrent.Info.Pieces) {
-			s.Torrent.completePiece(s.Torrent.pieces[i])
+			s.loadPiece(s.Torrent.pieces[i])
 		}
 		s.Torrent.complete()
-		s.downloaded.Add(s.Torrent.Info.GetLength())
 	} else {
 		// Check for complete pieces on disk
 		direntries, err := os.ReadDir(filepath.Join(s.WorkDir, s.Torrent.WorkDir()))
@@ -72,8 +76,7 @@ func (s *Storage) Load() error {
 				if st.Size() != int64(s.Torrent.pieces[i].Length) {
 					continue
 				}
-				s.downloaded.Add(st.Size())
-				s.Torrent.completePiece(s.Torrent.pieces[i])
+				s.loadPiece(s.Torrent.pieces[i])
 			}
 			if err = s.coalescePieces(); err != nil {
 				return err
@@ -83,6 +86,16 @@ func (s *Storage) Load() error {
 	return nil
 }
 
+func (s *Storage) loadPiece(piece *Piece) {
+	piece.mu.Lock()
+	defer piece.mu.Unlock()
+	if piece.coalesced {
+		return
+	}
+	s.Torrent.completePiece(piece)
+	s.downloaded.Add(int64(piece.Length))
+}
+
 func (s *Storage) Downloaded() int64 {
 	return s.downloaded.Load()
 }
-- 
2.43.0


From 79168d9e3a1ee80115193bec97f7186051de4e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:54 +0000
Subject: [PATCH 37/64] fix: storage: keep files inside of the target directory

---
 storage/storage.go | 70 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 61 insertions(+), 9 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 96b624c..552c5e6 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -43,7 +43,16 @@ func (s *Storage) Load() error {
 	if s.Torrent.coalesced {
 		return nil
 	}
-	_, err := os.Stat(filepath.Join(s.TargetDir, s.Torrent.FileName()))
+	filename, err := s.targetPath()
+	if err != nil {
+		return err
+	}
+	for _, file := range s.Torrent.Info.Files {
+		if _, err := localPath(file.Path...); err != nil {
+			return err
+		}
+	}
+	_, err = os.Stat(filename)
 	if err != nil && !errors.Is(err, os.ErrNotExist) {
 		return err
 	}
@@ -178,7 +187,10 @@ func (s *Storage) getBlockFromTorrent(index, begin, length int) ([]byte, error)
 }
 
 func (s *Storage) getBlockFromSingleFile(index, begin, length int) ([]byte, error) {
-	filename := filepath.Join(s.TargetDir, s.Torrent.FileName())
+	filename, err := s.targetPath()
+	if err != nil {
+		return nil, err
+	}
 	f, err := os.Open(filename)
 	if err != nil {
 		return nil, err
@@ -211,8 +223,11 @@ func (s *Storage) getBlockFromMultiFile(index, begin, length int) ([]byte, error
 			if total < int64(start) {
 				offset = start - int(total)
 			}
-			fp := append([]string{s.TargetDir, s.Torrent.FileName()}, file.Path...)
-			f, err := os.Open(filepath.Join(fp...))
+			filename, err := s.targetPath(file.Path...)
+			if err != nil {
+				return nil, err
+			}
+			f, err := os.Open(filename)
 			if err != nil {
 				return nil, err
 			}
@@ -245,6 +260,31 @@ func (s *Storage) getBlockFromPiece(piece *Piece, begin, length int) ([]byte, er
 	return data[:n], nil
 }
 
+// targetPath returns where the torrent, or a file of it, is stored. The names
+// come from the metainfo, and must not lead out of the target directory.
+func (s *Storage) targetPath(path ...string) (string, error) {
+	name := s.Torrent.FileName()
+	if name == "." || name != filepath.Base(name) || !filepath.IsLocal(name) {
+		return "", fmt.Errorf("storage: bad name: %q", name)
+	}
+	if len(path) == 0 {
+		return filepath.Join(s.TargetDir, name), nil
+	}
+	local, err := localPath(path...)
+	if err != nil {
+		return "", err
+	}
+	return filepath.Join(s.TargetDir, name, local), nil
+}
+
+func localPath(path ...string) (string, error) {
+	local := filepath.Join(path...)
+	if local == "." || !filepath.IsLocal(local) {
+		return "", fmt.Errorf("storage: bad path: %q", path)
+	}
+	return local, nil
+}
+
 func checkBlockSize(info *metainfo.Info, index, begin, length int) error {
 	if index < 0 || index >= len(info.Pieces) {
 		return fmt.Errorf("storage: bad piece index: %d", index)
@@ -320,6 +360,10 @@ func (s *Storage) coalescePieces() error {
 }
 
 func (s *Storage) coalescePiecesForSingleFile() error {
+	filename, err := s.targetPath()
+	if err != nil {
+		return err
+	}
 	tempDir := filepath.Join(s.WorkDir, "temp")
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
 		return err
@@ -339,7 +383,7 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	if _, err := io.Copy(temp, r); err != nil {
 		return err
 	}
-	if err = os.Rename(temp.Name(), filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
+	if err = os.Rename(temp.Name(), filename); err != nil {
 		return err
 	}
 	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
@@ -350,6 +394,10 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 }
 
 func (s *Storage) coalescePiecesForMultiFile() error {
+	dirname, err := s.targetPath()
+	if err != nil {
+		return err
+	}
 	tempDir := filepath.Join(s.WorkDir, "temp")
 	if err := os.MkdirAll(tempDir, 0o0700); err != nil {
 		return err
@@ -366,11 +414,15 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	}
 	r := io.MultiReader(pieceReaders...)
 	for _, file := range s.Torrent.Info.Files {
-		fp := append([]string{temp}, file.Path...)
-		if err := os.MkdirAll(filepath.Join(fp[:len(fp)-1]...), 0o0700); err != nil {
+		path, err := localPath(file.Path...)
+		if err != nil {
+			return err
+		}
+		filename := filepath.Join(temp, path)
+		if err := os.MkdirAll(filepath.Dir(filename), 0o0700); err != nil {
 			return err
 		}
-		f, err := os.Create(filepath.Join(fp...))
+		f, err := os.Create(filename)
 		if err != nil {
 			return err
 		}
@@ -379,7 +431,7 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 		}
 		f.Close()
 	}
-	if err = os.Rename(temp, filepath.Join(s.TargetDir, s.Torrent.FileName())); err != nil {
+	if err = os.Rename(temp, dirname); err != nil {
 		return err
 	}
 	if err := os.RemoveAll(filepath.Join(s.WorkDir, s.Torrent.WorkDir())); err != nil {
-- 
2.43.0


From 8f89094536098d4a986abd90edf15e496cde0047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 38/64] fix: storage: close files when reading or writing them
 fails

---
 storage/lazy_file_reader.go | 20 +++++++++++++++-----
 storage/storage.go          | 15 +++++++++++----
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/storage/lazy_file_reader.go b/storage/lazy_file_reader.go
index a02b37f..fb02747 100644
--- a/storage/lazy_file_reader.go
+++ b/storage/lazy_file_reader.go
@@ -7,10 +7,11 @@ import (
 )
 
 type lazyFileReader struct {
-	path string
-	f    *os.File
-	read int64
-	size int64
+	path   string
+	f      *os.File
+	closed bool
+	read   int64
+	size   int64
 }
 
 func (lfr *lazyFileReader) checkOpen() error {
@@ -30,10 +31,19 @@ func (lfr *lazyFileReader) checkOpen() error {
 
 func (lfr *lazyFileReader) checkClose() {
 	if lfr.read == lfr.size {
-		lfr.f.Close()
+		lfr.Close()
 	}
 }
 
+// Close closes the file if it has been opened. Closing it again has no effect.
+func (lfr *lazyFileReader) Close() error {
+	if lfr.f == nil || lfr.closed {
+		return nil
+	}
+	lfr.closed = true
+	return lfr.f.Close()
+}
+
 func (lfr *lazyFileReader) Read(p []byte) (n int, err error) {
 	defer func() {
 		if errors.Is(err, io.EOF) {
diff --git a/storage/storage.go b/storage/storage.go
index 552c5e6..8107a17 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -232,11 +232,11 @@ func (s *Storage) getBlockFromMultiFile(index, begin, length int) ([]byte, error
 				return nil, err
 			}
 			n, err := f.ReadAt(data[curr:], int64(offset))
+			f.Close()
 			curr += n
 			if err != nil && !errors.Is(err, io.EOF) {
 				return nil, err
 			}
-			f.Close()
 		}
 		total += file.Length
 	}
@@ -377,7 +377,9 @@ func (s *Storage) coalescePiecesForSingleFile() error {
 	var pieceReaders []io.Reader
 	for _, piece := range s.Torrent.pieces {
 		path := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
-		pieceReaders = append(pieceReaders, &lazyFileReader{path: path})
+		lfr := &lazyFileReader{path: path}
+		defer lfr.Close()
+		pieceReaders = append(pieceReaders, lfr)
 	}
 	r := io.MultiReader(pieceReaders...)
 	if _, err := io.Copy(temp, r); err != nil {
@@ -410,7 +412,9 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 	var pieceReaders []io.Reader
 	for _, piece := range s.Torrent.pieces {
 		path := filepath.Join(s.WorkDir, s.Torrent.WorkDir(), piece.FileName())
-		pieceReaders = append(pieceReaders, &lazyFileReader{path: path})
+		lfr := &lazyFileReader{path: path}
+		defer lfr.Close()
+		pieceReaders = append(pieceReaders, lfr)
 	}
 	r := io.MultiReader(pieceReaders...)
 	for _, file := range s.Torrent.Info.Files {
@@ -427,9 +431,12 @@ func (s *Storage) coalescePiecesForMultiFile() error {
 			return err
 		}
 		if _, err = io.CopyN(f, r, int64(file.Length)); err != nil {
+			f.Close()
+			return err
+		}
+		if err := f.Close(); err != nil {
 			return err
 		}
-		f.Close()
 	}
 	if err = os.Rename(temp, dirname); err != nil {
 		return err
-- 
2.43.0


From df78601275440f7d64e3d679e0979a6953c76cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 39/64] fix: storage: report failures to assemble the torrent
 to waiters

---
 storage/storage.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/storage/storage.go b/storage/storage.go
index 8107a17..944b02e 100644
--- a/storage/storage.go
+++ b/storage/storage.go
@@ -353,10 +353,16 @@ func (s *Storage) coalescePieces() error {
 		return nil
 	}
 	slog.Debug("coalescePieces", "name", s.Torrent.Info.Name)
+	var err error
 	if len(s.Torrent.Info.Files) > 0 {
-		return s.coalescePiecesForMultiFile()
+		err = s.coalescePiecesForMultiFile()
+	} else {
+		err = s.coalescePiecesForSingleFile()
+	}
+	if err != nil {
+		s.Torrent.err.Deliver(err)
 	}
-	return s.coalescePiecesForSingleFile()
+	return err
 }
 
 func (s *Storage) coalescePiecesForSingleFile() error {
-- 
2.43.0


From b4405653efe53c04daca4b01d8514c280975ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 40/64] fix: p2p: do not leave the server locked when a
 connection is refused

---
 p2p/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index d71d7b7..83428d3 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -270,10 +270,12 @@ func (p2p *Server) AddPeer(tp *tracker.Peer) error {
 func (p2p *Server) Connect(peer *Peer) error {
 	p2p.mu.Lock()
 	if len(p2p.activePeers) >= 50 {
+		p2p.mu.Unlock()
 		return ErrTooManyConnections
 	}
 	if idip, ok := p2p.knownIDIPs[peer.Addr()]; ok {
 		if _, ok := p2p.activePeers[idip]; ok {
+			p2p.mu.Unlock()
 			return ErrAlreadyConnected
 		}
 	}
-- 
2.43.0


From 7b05cde088b234eb34beddd0d4ad1325404281d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 41/64] fix: p2p: do not forget a connected peer when another
 connection of it fails

---
 p2p/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/server.go b/p2p/server.go
index 83428d3..4640b42 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -460,6 +460,10 @@ func (p2p *Server) disconnect(peer *Peer) error {
 	for _, i := range peer.Bitfield.Items() {
 		delete(p2p.indexToPeers[i], peer)
 	}
+	if p2p.activePeers[peer.IDIP()] != peer {
+		// never connected, already disconnected, or connected a second time
+		return peer.Close()
+	}
 	for addr := range p2p.knownAddrs[peer.IDIP()] {
 		if idip, ok := p2p.knownIDIPs[addr]; ok && idip == peer.IDIP() {
 			delete(p2p.knownIDIPs, addr)
-- 
2.43.0


From 9351684865b0d88b5e3c51bb2b5fbc8a8d74c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 42/64] fix: p2p: close and forget connections that fail to
 connect

---
 p2p/peer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 672f31f..dd4ceaa 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -163,17 +163,17 @@ func (p *Peer) NotInterest() error {
 }
 
 func (peer *Peer) serve(ctx context.Context) {
+	defer func() {
+		if err := peer.server.Disconnect(peer); err != nil {
+			slog.Error("serve.Disconnect", "err", err)
+		}
+	}()
 	if err := peer.server.Connect(peer); err != nil {
 		if !errors.Is(err, ErrAlreadyConnected) {
 			slog.Error("serve.Connect", "err", err)
 		}
 		return
 	}
-	defer func() {
-		if err := peer.server.Disconnect(peer); err != nil {
-			slog.Error("serve.Disconnect", "err", err)
-		}
-	}()
 	for {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 9d26eba9d0fcf2e60974605e753355f9fd2a1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 43/64] fix: p2p: do not race on pieces in flight

---
 p2p/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 4640b42..f2f7f86 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -401,8 +401,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		}
 		p2p.inflight[index] = peer
 		go func() {
-			defer delete(p2p.inflight, index)
-			if err := p2p.requestPiece(ctx, peer, index); err != nil {
+			err := p2p.requestPiece(ctx, peer, index)
+			p2p.mu.Lock()
+			delete(p2p.inflight, index)
+			p2p.mu.Unlock()
+			if err != nil {
 				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
 				if _, ok := err.(*storage.ChecksumError); ok {
 					if err := p2p.Block(peer); err != nil {
-- 
2.43.0


From f63558459ec258ffa7dfcd7551eeb6586e5db02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 44/64] fix: p2p: request the rarest pieces first

---
 p2p/server.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index f2f7f86..a8266c8 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -389,11 +389,11 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		delete(p2p.queuedPeers, peer)
 		return peer.NotInterest()
 	}
-	sort.Slice(pieces, func(i, j int) bool {
-		if len(p2p.indexToPeers[i]) == len(p2p.indexToPeers[j]) {
-			return rand.Float64() < 0.5
-		}
-		return len(p2p.indexToPeers[i]) < len(p2p.indexToPeers[j])
+	rand.Shuffle(len(pieces), func(i, j int) {
+		pieces[i], pieces[j] = pieces[j], pieces[i]
+	})
+	sort.SliceStable(pieces, func(i, j int) bool {
+		return len(p2p.indexToPeers[pieces[i]]) < len(p2p.indexToPeers[pieces[j]])
 	})
 	for _, index := range pieces {
 		if p2p.inflight[index] != nil {
-- 
2.43.0


From 19e39f5ffd6b452668c0b69b0b6c90a177ed25be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 45/64] fix: p2p: do not block on the download queue while
 holding the lock

---
 p2p/server.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index a8266c8..c89593b 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -67,7 +67,7 @@ func New(mi *metainfo.Metainfo, peerID [20]byte, storage *storage.Storage, port
 
 		peerSemaphore: make(chan struct{}, 50),
 		newPeerQueue:  make(chan *tracker.Peer, 50),
-		downloadQueue: make(chan *Peer),
+		downloadQueue: make(chan *Peer, 50),
 
 		knownPeers:   make(map[addr]*tracker.Peer),
 		knownAddrs:   make(map[idip]map[addr]struct{}),
@@ -413,7 +413,10 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 					}
 				}
 			}
-			p2p.downloadQueue <- peer
+			select {
+			case <-ctx.Done():
+			case p2p.downloadQueue <- peer:
+			}
 		}()
 		return nil
 	}
@@ -422,7 +425,10 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		case <-ctx.Done():
 			return
 		case <-time.After(5 * time.Second):
-			p2p.downloadQueue <- peer
+		}
+		select {
+		case <-ctx.Done():
+		case p2p.downloadQueue <- peer:
 		}
 	}()
 	return nil
@@ -454,9 +460,13 @@ func (p2p *Server) queuePeer(peer *Peer) bool {
 	if _, ok := p2p.queuedPeers[peer]; ok {
 		return false
 	}
-	p2p.queuedPeers[peer] = struct{}{}
-	p2p.downloadQueue <- peer
-	return true
+	select {
+	case p2p.downloadQueue <- peer:
+		p2p.queuedPeers[peer] = struct{}{}
+		return true
+	default:
+		return false
+	}
 }
 
 func (p2p *Server) disconnect(peer *Peer) error {
-- 
2.43.0


From fc82f2425df752c13f36f22aa0557abee979e974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 46/64] fix: p2p: do not race on bitfields

---
 p2p/peer.go        |  3 +--
 p2p/server.go      |  5 +++--
 storage/torrent.go | 15 +++++++++++++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index dd4ceaa..22f36cb 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -223,9 +223,8 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 }
 
 func (peer *Peer) HandleHave(i int) error {
-	peer.Bitfield.Add(i)
 	peer.server.RecordIndex(i, peer)
-	if !peer.server.Storage.Torrent.Bitfield.Has(i) {
+	if !peer.server.Storage.Torrent.HasPiece(i) {
 		peer.server.QueuePeer(peer)
 		return peer.Interest()
 	}
diff --git a/p2p/server.go b/p2p/server.go
index c89593b..8e90dc4 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -300,7 +300,7 @@ func (p2p *Server) Connect(peer *Peer) error {
 		return ErrAlreadyConnected
 	}
 	p2p.activePeers[peer.IDIP()] = peer
-	bf := p2p.Storage.Torrent.Bitfield
+	bf := p2p.Storage.Torrent.Pieces()
 	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
 		return err
 	}
@@ -333,6 +333,7 @@ func (p2p *Server) RecordIndex(i int, peer *Peer) {
 		p2p.indexToPeers[i] = m
 	}
 	m[peer] = struct{}{}
+	peer.Bitfield.Add(i)
 }
 
 func (p2p *Server) Downloaded() int64 {
@@ -382,7 +383,7 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 		delete(p2p.queuedPeers, peer)
 		return nil
 	}
-	bf := p2p.Storage.Torrent.Bitfield
+	bf := p2p.Storage.Torrent.Pieces()
 	pieceBf := peer.Bitfield.Difference(bf)
 	pieces := pieceBf.Items()
 	if len(pieces) == 0 {
diff --git a/storage/torrent.go b/storage/torrent.go
index 145eee5..d1262cb 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -3,6 +3,7 @@ package storage
 import (
 	"errors"
 	"fmt"
+	"slices"
 	"sync"
 
 	"github.com/browles/drip/api/metainfo"
@@ -49,6 +50,20 @@ func (t *Torrent) Wait() error {
 	return fut.Wait()
 }
 
+// HasPiece reports whether the piece is complete.
+func (t *Torrent) HasPiece(index int) bool {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+	return t.Bitfield.Has(index)
+}
+
+// Pieces returns a copy of the complete pieces.
+func (t *Torrent) Pieces() bitfield.Bitfield {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+	return slices.Clone(t.Bitfield)
+}
+
 func (t *Torrent) completePiece(piece *Piece) {
 	piece.coalesced = true
 	piece.err.Deliver(nil)
-- 
2.43.0


From 80d38fdbaa3edda8668bfdd6628fd34173984118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 47/64] fix: p2p: report pieces outside of the torrent instead
 of panicking

---
 p2p/peer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 22f36cb..1e329d5 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -223,6 +223,9 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 }
 
 func (peer *Peer) HandleHave(i int) error {
+	if i < 0 || i >= len(peer.server.Info.Pieces) {
+		return fmt.Errorf("p2p: bad piece index: %d", i)
+	}
 	peer.server.RecordIndex(i, peer)
 	if !peer.server.Storage.Torrent.HasPiece(i) {
 		peer.server.QueuePeer(peer)
-- 
2.43.0


From 2ec9f19bf07d76e8f0fdf42ae8ad1e7910be70d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 48/64] fix: p2p: keep announcing and unchoking after an error

---
 p2p/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index 8e90dc4..00ff094 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -511,7 +511,7 @@ func (p2p *Server) every(ctx context.Context, f func(ctx context.Context) error,
 		case <-ticker.C:
 		}
 		if err := f(ctx); err != nil {
-			return err
+			slog.Error("every", "err", err)
 		}
 	}
 }
-- 
2.43.0


From 9be886b9777fa7d2f8507eab4d70f4f37e1d8abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 49/64] fix: p2p: do not race on, or hold the lock while,
 stopping

---
 p2p/server.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index 00ff094..1b9fb08 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -87,13 +87,16 @@ func (p2p *Server) Start() error {
 	if err != nil {
 		return err
 	}
-	p2p.tcp, err = net.Listen("tcp", fmt.Sprintf(":%d", p2p.Port))
+	tcp, err := net.Listen("tcp", fmt.Sprintf(":%d", p2p.Port))
 	if err != nil {
 		return err
 	}
 	slog.Info("Start", "network", "tcp", "port", p2p.Port)
 	ctx, cancel := context.WithCancel(context.Background())
+	p2p.mu.Lock()
+	p2p.tcp = tcp
 	p2p.cancel = cancel
+	p2p.mu.Unlock()
 	defer cancel()
 	eg, ctx := errgroup.WithContext(ctx)
 	go func() {
@@ -123,15 +126,19 @@ func (p2p *Server) Start() error {
 
 func (p2p *Server) Stop() error {
 	p2p.mu.Lock()
-	defer p2p.mu.Unlock()
 	if p2p.cancel == nil {
+		p2p.mu.Unlock()
 		return errors.New("p2p: server not started")
 	}
 	p2p.cancel()
+	p2p.cancel = nil
 	p2p.tcp.Close()
+	p2p.mu.Unlock()
 	var errs []error
 	_, err := p2p.Tracker.Stop()
 	errs = append(errs, err)
+	p2p.mu.Lock()
+	defer p2p.mu.Unlock()
 	for _, p := range p2p.activePeers {
 		errs = append(errs, p2p.disconnect(p))
 	}
@@ -139,13 +146,16 @@ func (p2p *Server) Stop() error {
 }
 
 func (p2p *Server) Serve(ctx context.Context) error {
+	p2p.mu.Lock()
+	tcp := p2p.tcp
+	p2p.mu.Unlock()
 	for {
 		select {
 		case <-ctx.Done():
 			return ctx.Err()
 		default:
 		}
-		conn, err := p2p.tcp.Accept()
+		conn, err := tcp.Accept()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a6c3902ec3402a21fca9746230611d463af67079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 50/64] fix: p2p: ignore blocks that are not requested

---
 p2p/peer.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 1e329d5..e0a23b0 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -114,11 +114,6 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 	}
 	slog.Debug("Receive", "peer", p.IDIP(), "message", m)
 	switch m.Type {
-	case peerapi.PIECE:
-		p.mu.Lock()
-		br := blockRequest{m.Index(), m.Begin(), len(m.Piece())}
-		p.completeRequest(&br, nil)
-		p.mu.Unlock()
 	case peerapi.CHOKE:
 		p.mu.Lock()
 		for br := range p.inflightRequests {
@@ -267,17 +262,35 @@ func (peer *Peer) HandleCancel(index, begin, length int) {
 }
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
-	err := peer.server.Storage.PutBlock(index, begin, data)
-	if err != nil && !errors.Is(err, storage.ErrBlockExists) {
+	ok, err := peer.putBlock(&blockRequest{index, begin, len(data)}, data)
+	if err != nil {
 		return err
 	}
-	if err == nil {
+	if ok {
 		peer.downloaded.Add(int64(len(data)))
 		peer.server.downloaded.Add(int64(len(data)))
 	}
 	return nil
 }
 
+// putBlock stores a block if it has been requested, and reports whether it was
+// new. The request is held until the block is stored, so that blocks that arrive
+// late cannot end up in a piece that is requested from another peer by then.
+func (p *Peer) putBlock(br *blockRequest, data []byte) (bool, error) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if _, ok := p.inflightRequests[*br]; !ok {
+		return false, nil
+	}
+	err := p.server.Storage.PutBlock(br.index, br.begin, data)
+	if errors.Is(err, storage.ErrBlockExists) {
+		p.completeRequest(br, nil)
+		return false, nil
+	}
+	p.completeRequest(br, err)
+	return err == nil, err
+}
+
 func (peer *Peer) requestPiece(ctx context.Context, index int) (err error) {
 	slog.Debug("requestPiece", "peer", peer.IDIP(), "index", index)
 	pieceLength := peer.server.Info.GetPieceLength(index)
-- 
2.43.0


From 53718b3ccfbdaee1a2f6fefcec996140bfa6c20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 51/64] fix: p2p: block peers for bad pieces before they are
 disconnected and forgotten

---
 p2p/peer.go   | 5 +++++
 p2p/server.go | 5 -----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index e0a23b0..e2401f7 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -264,6 +264,11 @@ func (peer *Peer) HandleCancel(index, begin, length int) {
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
 	ok, err := peer.putBlock(&blockRequest{index, begin, len(data)}, data)
 	if err != nil {
+		if _, ok := err.(*storage.ChecksumError); ok {
+			if err := peer.server.Block(peer); err != nil {
+				slog.Error("HandlePiece.Block", "err", err)
+			}
+		}
 		return err
 	}
 	if ok {
diff --git a/p2p/server.go b/p2p/server.go
index 1b9fb08..774d066 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -418,11 +418,6 @@ func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
 			p2p.mu.Unlock()
 			if err != nil {
 				slog.Error("requestPieceFromPeer.requestPiece", "err", err)
-				if _, ok := err.(*storage.ChecksumError); ok {
-					if err := p2p.Block(peer); err != nil {
-						slog.Error("requestPieceFromPeer.Block", "err", err)
-					}
-				}
 			}
 			select {
 			case <-ctx.Done():
-- 
2.43.0


From b1284990b0789fcace35bf433a952e56105b886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 52/64] fix: p2p: do not drop requests because of an earlier
 cancel

---
 p2p/peer.go   | 14 ++------------
 p2p/server.go |  1 -
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index e2401f7..3d9f447 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -34,7 +34,6 @@ type Peer struct {
 	mu sync.Mutex
 	net.Conn
 	inflightRequests map[blockRequest]*future.Future[error]
-	canceledRequests map[blockRequest]struct{}
 }
 
 type blockRequest struct {
@@ -234,13 +233,6 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 		return ErrChoked
 	}
 	req := blockRequest{index, begin, length}
-	peer.mu.Lock()
-	if _, ok := peer.canceledRequests[req]; ok {
-		delete(peer.canceledRequests, req)
-		peer.mu.Unlock()
-		return nil
-	}
-	peer.mu.Unlock()
 	data, err := peer.server.Storage.GetBlock(req.index, req.begin, req.length)
 	if err != nil {
 		return err
@@ -254,11 +246,9 @@ func (peer *Peer) HandleRequest(index, begin, length int) error {
 	return nil
 }
 
+// HandleCancel has nothing to cancel: messages are handled in order, so that
+// earlier requests have been responded to by now.
 func (peer *Peer) HandleCancel(index, begin, length int) {
-	peer.mu.Lock()
-	defer peer.mu.Unlock()
-	k := blockRequest{index, begin, length}
-	peer.canceledRequests[k] = struct{}{}
 }
 
 func (peer *Peer) HandlePiece(index, begin int, data []byte) error {
diff --git a/p2p/server.go b/p2p/server.go
index 774d066..fe0deb7 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -499,7 +499,6 @@ func (p2p *Server) newPeer(conn net.Conn) *Peer {
 		server:           p2p,
 		Conn:             conn,
 		inflightRequests: make(map[blockRequest]*future.Future[error]),
-		canceledRequests: make(map[blockRequest]struct{}),
 	}
 	peer.RemoteChoked.Store(true)
 	peer.Choked.Store(true)
-- 
2.43.0


From a2f4621263f9a12eeccdd4022089dec1da816d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 53/64] fix: p2p: do not write to connections while holding the
 server lock

---
 p2p/peer.go   |  4 ++++
 p2p/server.go | 20 ++++++++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 3d9f447..0ff74f9 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -95,6 +95,10 @@ func (p *Peer) Addr() addr {
 func (p *Peer) Send(m *peerapi.Message) error {
 	p.mu.Lock()
 	defer p.mu.Unlock()
+	return p.send(m)
+}
+
+func (p *Peer) send(m *peerapi.Message) error {
 	if m.Type == peerapi.REQUEST {
 		if p.RemoteChoked.Load() {
 			return ErrChoked
diff --git a/p2p/server.go b/p2p/server.go
index fe0deb7..5d24ec9 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -294,6 +294,16 @@ func (p2p *Server) Connect(peer *Peer) error {
 	if err := peer.Handshake(); err != nil {
 		return err
 	}
+	// Other messages have to wait until the bitfield is sent
+	peer.mu.Lock()
+	defer peer.mu.Unlock()
+	if err := p2p.register(peer); err != nil {
+		return err
+	}
+	return peer.send(peerapi.Bitfield(p2p.Storage.Torrent.Pieces()))
+}
+
+func (p2p *Server) register(peer *Peer) error {
 	p2p.mu.Lock()
 	defer p2p.mu.Unlock()
 	if len(p2p.activePeers) >= 50 {
@@ -310,10 +320,6 @@ func (p2p *Server) Connect(peer *Peer) error {
 		return ErrAlreadyConnected
 	}
 	p2p.activePeers[peer.IDIP()] = peer
-	bf := p2p.Storage.Torrent.Pieces()
-	if err := peer.Send(peerapi.Bitfield(bf)); err != nil {
-		return err
-	}
 	return nil
 }
 
@@ -387,19 +393,21 @@ func (p2p *Server) dialPeer(ctx context.Context, tp *tracker.Peer) error {
 }
 
 func (p2p *Server) requestPieceFromPeer(ctx context.Context, peer *Peer) error {
+	bf := p2p.Storage.Torrent.Pieces()
 	p2p.mu.Lock()
-	defer p2p.mu.Unlock()
 	if peer.Closed.Load() || peer.RemoteChoked.Load() {
 		delete(p2p.queuedPeers, peer)
+		p2p.mu.Unlock()
 		return nil
 	}
-	bf := p2p.Storage.Torrent.Pieces()
 	pieceBf := peer.Bitfield.Difference(bf)
 	pieces := pieceBf.Items()
 	if len(pieces) == 0 {
 		delete(p2p.queuedPeers, peer)
+		p2p.mu.Unlock()
 		return peer.NotInterest()
 	}
+	defer p2p.mu.Unlock()
 	rand.Shuffle(len(pieces), func(i, j int) {
 		pieces[i], pieces[j] = pieces[j], pieces[i]
 	})
-- 
2.43.0


From 6e49440e846aee67520c5a0a4cffe4c6a57b1300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 54/64] fix: p2p: announce pieces to all peers even if one of
 them fails

---
 p2p/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/server.go b/p2p/server.go
index 5d24ec9..af688c9 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -461,7 +461,7 @@ func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
 		}
 		err := p.Send(peerapi.Have(i))
 		if err != nil {
-			return err
+			slog.Error("requestPiece.Send", "err", err)
 		}
 	}
 	return nil
-- 
2.43.0


From 55c351cd42a2b8b373edf2a6ee95a58f5f974c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 55/64] fix: p2p: connect to peers with an IPv6 address

---
 p2p/server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/server.go b/p2p/server.go
index af688c9..722a872 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -9,6 +9,7 @@ import (
 	"math/rand"
 	"net"
 	"sort"
+	"strconv"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -362,7 +363,7 @@ func (p2p *Server) Uploaded() int64 {
 
 func (p2p *Server) dialTCP(peer *tracker.Peer) (*Peer, error) {
 	slog.Debug("dialTCP", "ip", peer.IP, "port", peer.Port)
-	conn, err := net.Dial("tcp", fmt.Sprintf("%s:%d", peer.IP, peer.Port))
+	conn, err := net.Dial("tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
 	if err != nil {
 		return nil, err
 	}
@@ -533,5 +534,5 @@ func remoteAddr(tp *tracker.Peer) (addr, error) {
 	if ip == nil {
 		return "", errors.New("p2p: bad ip")
 	}
-	return addr(fmt.Sprintf("%s:%d", ip.String(), tp.Port)), nil
+	return addr(net.JoinHostPort(ip.String(), strconv.Itoa(tp.Port))), nil
 }
-- 
2.43.0


From b1cb0681ffb7a8b2010bb6f9ca4273fa73e9eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 56/64] fix: p2p: bound the duration of dialing and of writing
 messages

---
 p2p/peer.go   | 8 +++++++-
 p2p/server.go | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 0ff74f9..c0a3f9b 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -106,7 +106,13 @@ func (p *Peer) send(m *peerapi.Message) error {
 		p.SetReadDeadline(time.Now().Add(2 * time.Minute))
 	}
 	slog.Debug("Send", "peer", p.IDIP(), "message", m)
-	return peerapi.Write(p.Conn, m)
+	p.SetWriteDeadline(time.Now().Add(30 * time.Second))
+	if err := peerapi.Write(p.Conn, m); err != nil {
+		// part of the message may have been sent
+		p.Close()
+		return err
+	}
+	return nil
 }
 
 func (p *Peer) Receive() (m *peerapi.Message, err error) {
diff --git a/p2p/server.go b/p2p/server.go
index 722a872..05326a7 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -363,7 +363,7 @@ func (p2p *Server) Uploaded() int64 {
 
 func (p2p *Server) dialTCP(peer *tracker.Peer) (*Peer, error) {
 	slog.Debug("dialTCP", "ip", peer.IP, "port", peer.Port)
-	conn, err := net.Dial("tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)))
+	conn, err := net.DialTimeout("tcp", net.JoinHostPort(peer.IP, strconv.Itoa(peer.Port)), 30*time.Second)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 02fb89960d6e25785f110f75b552ded96c3a7bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 57/64] fix: p2p: stop waiting for a piece when the download is
 canceled

---
 p2p/peer.go        |  6 +++---
 storage/torrent.go | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index c0a3f9b..39a0199 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -300,13 +300,13 @@ func (peer *Peer) requestPiece(ctx context.Context, index int) (err error) {
 	slog.Debug("requestPiece", "peer", peer.IDIP(), "index", index)
 	pieceLength := peer.server.Info.GetPieceLength(index)
 	piece := peer.server.Storage.ResetPiece(index)
-	eg, ctx := errgroup.WithContext(ctx)
+	eg, egctx := errgroup.WithContext(ctx)
 	eg.SetLimit(16)
 	for begin := 0; begin < pieceLength; begin += storage.BLOCK_LENGTH {
 		blockLength := min(storage.BLOCK_LENGTH, pieceLength-begin)
 		func(begin, blockLength int) {
 			eg.Go(func() error {
-				ctx, cancel := context.WithTimeout(ctx, 10*time.Second)
+				ctx, cancel := context.WithTimeout(egctx, 10*time.Second)
 				defer cancel()
 				return peer.requestBlock(ctx, &blockRequest{index, begin, blockLength})
 			})
@@ -315,7 +315,7 @@ func (peer *Peer) requestPiece(ctx context.Context, index int) (err error) {
 	if err := eg.Wait(); err != nil {
 		return err
 	}
-	if err := piece.Wait(); err != nil {
+	if err := piece.WaitContext(ctx); err != nil {
 		return err
 	}
 	return nil
diff --git a/storage/torrent.go b/storage/torrent.go
index d1262cb..0c53c24 100644
--- a/storage/torrent.go
+++ b/storage/torrent.go
@@ -1,6 +1,7 @@
 package storage
 
 import (
+	"context"
 	"errors"
 	"fmt"
 	"slices"
@@ -116,6 +117,19 @@ func (p *Piece) Wait() error {
 	return fut.Wait()
 }
 
+// WaitContext is like Wait, but returns early when the context is done.
+func (p *Piece) WaitContext(ctx context.Context) error {
+	p.mu.RLock()
+	fut := p.err
+	p.mu.RUnlock()
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-fut.Done:
+		return fut.Wait()
+	}
+}
+
 func (p *Piece) reset() {
 	if p.coalesced {
 		return
-- 
2.43.0


From 7b9531e64e894edd27dd40395bd8ccc8023dd1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:43 +0000
Subject: [PATCH 58/64] fix: p2p: fail requests only after the peer is known to
 choke

---
 p2p/peer.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 39a0199..a02e081 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -122,15 +122,6 @@ func (p *Peer) Receive() (m *peerapi.Message, err error) {
 		return nil, err
 	}
 	slog.Debug("Receive", "peer", p.IDIP(), "message", m)
-	switch m.Type {
-	case peerapi.CHOKE:
-		p.mu.Lock()
-		for br := range p.inflightRequests {
-			p.completeRequest(&br, ErrChoked)
-		}
-		p.mu.Unlock()
-	default:
-	}
 	return m, nil
 }
 
@@ -200,7 +191,7 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 	switch m.Type {
 	case peerapi.KEEPALIVE:
 	case peerapi.CHOKE:
-		peer.RemoteChoked.Store(true)
+		peer.HandleChoke()
 	case peerapi.UNCHOKE:
 		peer.RemoteChoked.Store(false)
 		peer.server.QueuePeer(peer)
@@ -226,6 +217,15 @@ func (peer *Peer) HandleMessage(m *peerapi.Message) error {
 	return nil
 }
 
+func (peer *Peer) HandleChoke() {
+	peer.mu.Lock()
+	defer peer.mu.Unlock()
+	peer.RemoteChoked.Store(true)
+	for br := range peer.inflightRequests {
+		peer.completeRequest(&br, ErrChoked)
+	}
+}
+
 func (peer *Peer) HandleHave(i int) error {
 	if i < 0 || i >= len(peer.server.Info.Pieces) {
 		return fmt.Errorf("p2p: bad piece index: %d", i)
-- 
2.43.0


From b62cfe66bf8d354f60f80f3ad722bcad86752c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:41 +0000
Subject: [PATCH 59/64] fix: pex: do not hold the torrent lock while writing
 the response

A client that does not read its response blocked every other announce of
the torrent, and the expiry of peers.
---
 pex/http.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pex/http.go b/pex/http.go
index a2dd18d..ab89780 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -108,7 +108,6 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	}
 	addr := fmt.Sprintf("%s:%d", netIP.String(), r.Port)
 	torrent.mu.Lock()
-	defer torrent.mu.Unlock()
 	peer, ok := torrent.Peers[addr]
 	if !ok {
 		peer = &Peer{
@@ -136,6 +135,8 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 			peers.List = append(peers.List, p.tp)
 		}
 	}
+	// A client that is slow to read must not hold up the others
+	torrent.mu.Unlock()
 	res := &trackerapi.Response{
 		Interval: 30,
 		Peers:    peers,
-- 
2.43.0


From b9375d90e429d8df887e416783c1a439985eba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 60/64] fix: p2p: announce choke and interest in the order they
 change

---
 p2p/peer.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index a02e081..e3ca3d5 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -130,29 +130,37 @@ func (p *Peer) Keepalive() error {
 }
 
 func (p *Peer) Choke() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Choked.CompareAndSwap(false, true) {
-		return p.Send(peerapi.Choke())
+		return p.send(peerapi.Choke())
 	}
 	return nil
 }
 
 func (p *Peer) Unchoke() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Choked.CompareAndSwap(true, false) {
-		return p.Send(peerapi.Unchoke())
+		return p.send(peerapi.Unchoke())
 	}
 	return nil
 }
 
 func (p *Peer) Interest() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Interested.CompareAndSwap(false, true) {
-		return p.Send(peerapi.Interested())
+		return p.send(peerapi.Interested())
 	}
 	return nil
 }
 
 func (p *Peer) NotInterest() error {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	if p.Interested.CompareAndSwap(true, false) {
-		return p.Send(peerapi.NotInterested())
+		return p.send(peerapi.NotInterested())
 	}
 	return nil
 }
-- 
2.43.0


From 6103e391950cde8710af7d8b321ee359e721a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 61/64] fix: p2p: stay interested in pieces that are announced
 meanwhile

---
 p2p/peer.go   | 4 ++++
 p2p/server.go | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index e3ca3d5..da1bb0b 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -159,6 +159,10 @@ func (p *Peer) Interest() error {
 func (p *Peer) NotInterest() error {
 	p.mu.Lock()
 	defer p.mu.Unlock()
+	if len(p.server.missingPieces(p)) > 0 {
+		// the peer has announced a piece meanwhile
+		return nil
+	}
 	if p.Interested.CompareAndSwap(true, false) {
 		return p.send(peerapi.NotInterested())
 	}
diff --git a/p2p/server.go b/p2p/server.go
index 05326a7..f4c4cda 100644
--- a/p2p/server.go
+++ b/p2p/server.go
@@ -468,6 +468,14 @@ func (p2p *Server) requestPiece(ctx context.Context, p *Peer, i int) error {
 	return nil
 }
 
+// missingPieces are the pieces that the peer has and we do not.
+func (p2p *Server) missingPieces(peer *Peer) []int {
+	bf := p2p.Storage.Torrent.Pieces()
+	p2p.mu.Lock()
+	defer p2p.mu.Unlock()
+	return peer.Bitfield.Difference(bf).Items()
+}
+
 func (p2p *Server) queuePeer(peer *Peer) bool {
 	if peer.Closed.Load() || peer.RemoteChoked.Load() {
 		return false
-- 
2.43.0


From 10bac5c58f75322dcb476f45c38134404061f60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 62/64] fix: p2p: keep the parameters of announce URLs

The query of an announce URL, such as the passkey of a private tracker,
was replaced by that of the request.
---
 p2p/multitracker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p2p/multitracker.go b/p2p/multitracker.go
index dda77bc..0e2fcda 100644
--- a/p2p/multitracker.go
+++ b/p2p/multitracker.go
@@ -145,7 +145,10 @@ func (mt *Tracker) get(event eventName) (*trackerapi.Response, error) {
 	if err != nil {
 		return nil, err
 	}
-	url.RawQuery = req.Encode()
+	if url.RawQuery != "" {
+		url.RawQuery += "&"
+	}
+	url.RawQuery += req.Encode()
 	httpRes, err := httpClient.Get(url.String())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From fc6d61929b749793e10a01409e4b8a0382fe373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 63/64] fix: api/tracker: refuse hashes and ids of the wrong
 length

A longer info_hash was cut off, and so taken for that of another torrent.
---
 api/tracker/tracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/tracker/tracker.go b/api/tracker/tracker.go
index b9a17a7..d029c1a 100644
--- a/api/tracker/tracker.go
+++ b/api/tracker/tracker.go
@@ -83,6 +83,9 @@ func (r *Request) Decode(rawQuery string) error {
 		}
 		switch dest := f.dest.(type) {
 		case *[20]byte:
+			if len(v) != len(dest) {
+				return fmt.Errorf("%q is not %d bytes long: %d", f.key, len(dest), len(v))
+			}
 			copy((*dest)[:], v)
 		case *string:
 			*dest = v
-- 
2.43.0


From 19f8826d6a2aba5415b451aeec2a40c94c80f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:49 +0000
Subject: [PATCH 64/64] fix: pex: list clients under the id that they announced
 last

---
 pex/http.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pex/http.go b/pex/http.go
index ab89780..acfa781 100644
--- a/pex/http.go
+++ b/pex/http.go
@@ -110,15 +110,15 @@ func (t *HTTP) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	torrent.mu.Lock()
 	peer, ok := torrent.Peers[addr]
 	if !ok {
-		peer = &Peer{
-			tp: &trackerapi.Peer{
-				ID:   string(r.PeerID[:]),
-				IP:   netIP.String(),
-				Port: r.Port,
-			},
-		}
+		peer = &Peer{}
 		torrent.Peers[addr] = peer
 	}
+	// A client that was restarted has another id
+	peer.tp = &trackerapi.Peer{
+		ID:   string(r.PeerID[:]),
+		IP:   netIP.String(),
+		Port: r.Port,
+	}
 	peer.UpdatedAt = time.Now()
 	peer.LastEvent = r.Event
 	peers := &trackerapi.Peers{Compact: r.Compact}
-- 
2.43.0

