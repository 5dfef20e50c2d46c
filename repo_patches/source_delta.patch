From 92fdf14b748f11c528c4b76a654a8cb864d94e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:06 +0000
Subject: [PATCH 01/28] fix: Value.Decimal128 returned the high and low words
 swapped

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 6e0ca90..e241ec4 100644
--- a/value.go
+++ b/value.go
@@ -1149,8 +1149,8 @@ func (v *Value) Decimal128() types.Decimal128 {
 	}
 
 	return types.NewDecimal128(
-		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]),
-		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]))
+		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]),
+		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]))
 }
 
 // Decimal128OK is the same as Decimal128, except that it returns a boolean
-- 
2.43.0


From 17c730de047bebaa314b5cabf1f12b44c3721e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:06 +0000
Subject: [PATCH 02/28] fix: EC.Int truncated integers below the int32 range

---
 x_constructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x_constructor.go b/x_constructor.go
index 5d0dcfc..926f820 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -258,7 +258,7 @@ func (ElementConstructorError) DocumentMarshaler(key string, val DocumentMarshal
 }
 
 func (ElementConstructor) Int(key string, i int) *Element {
-	if i < math.MaxInt32 {
+	if i >= math.MinInt32 && i < math.MaxInt32 {
 		return EC.Int32(key, int32(i))
 	}
 
-- 
2.43.0


From b0bf8b108d5ab7d5807395ae81b7d7a019891744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:06 +0000
Subject: [PATCH 03/28] fix: Document and Array mutations left a stale Map
 cache behind

---
 array.go    | 2 ++
 document.go | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/array.go b/array.go
index a3641d2..602b763 100644
--- a/array.go
+++ b/array.go
@@ -173,6 +173,7 @@ func (a *Array) Set(index uint, value *Value) *Array {
 	}
 
 	a.doc.elems[index] = &Element{value}
+	a.doc.cacheValid = false
 
 	return a
 }
@@ -193,6 +194,7 @@ func (a *Array) Delete(index uint) *Value {
 
 	elem := a.doc.elems[index]
 	a.doc.elems = append(a.doc.elems[:index], a.doc.elems[index+1:]...)
+	a.doc.cacheValid = false
 
 	return elem.value
 }
diff --git a/document.go b/document.go
index cb833c7..d067d6c 100644
--- a/document.go
+++ b/document.go
@@ -101,6 +101,7 @@ func (d *Document) Set(elem *Element) *Document {
 	for idx, e := range d.elems {
 		if elem.Key() == e.Key() {
 			d.elems[idx] = elem
+			d.cacheValid = false
 			return d
 		}
 	}
@@ -119,6 +120,7 @@ func (d *Document) Delete(key string) *Element {
 		if d.elems[idx].Key() == key {
 			elem := d.elems[idx]
 			d.elems = append(d.elems[:idx], d.elems[idx+1:]...)
+			d.cacheValid = false
 			return elem
 		}
 	}
@@ -289,6 +291,7 @@ func (d *Document) UnmarshalBSON(b []byte) error {
 	seq := Reader(b).Iterator()
 
 	d.elems = make([]*Element, 0, 128)
+	d.cacheValid = false
 
 	for value, err := range seq {
 		if err != nil {
-- 
2.43.0


From d08009f0806ebee20fff3c1e237c99a4a0a68fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:35 +0000
Subject: [PATCH 04/28] fix: Value.validate accepted negative and overflowing
 lengths and could panic on them

---
 value.go | 51 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/value.go b/value.go
index e241ec4..452a2a1 100644
--- a/value.go
+++ b/value.go
@@ -218,7 +218,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l > int32(len(v.data)) {
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
+		if int64(v.offset)+4+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 		// We check if the value that is the last element of the string is a
@@ -253,7 +257,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -292,7 +296,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -320,10 +324,19 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidBinarySubtype
 		}
 
-		if int32(v.offset)+5+l > int32(len(v.data)) {
+		if l < 0 {
+			return total, bsonerr.InvalidLength
+		}
+
+		if int64(v.offset)+5+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		// The payload of the old binary subtype starts with its own length.
+		if v.data[v.offset+4] == '\x02' && (l < 4 || readi32(v.data[v.offset+5:v.offset+9]) != l-4) {
+			return total, bsonerr.InvalidLength
+		}
+
 		total += uint32(l)
 	case '\x07':
 		if int(v.offset+12) > len(v.data) {
@@ -374,10 +387,18 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l+12 > int32(len(v.data)) {
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
+		if int64(v.offset)+4+int64(l)+12 > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		if !sizeOnly && v.data[v.offset+4+uint32(l)-1] != 0x00 {
+			return total, bsonerr.InvalidString
+		}
+
 		total += uint32(l) + 12
 	case '\x0F':
 		if v.d != nil {
@@ -393,7 +414,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			total += 8
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 
-			if int(sLength) > len(v.data)+8 {
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
+
+			if int64(v.offset)+8+int64(sLength) > int64(len(v.data)) {
 				return total, errTooSmall
 			}
 
@@ -420,11 +445,19 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if l < 4 {
+			return total, bsonerr.InvalidLength
+		}
+
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
 		if !sizeOnly {
+			if l < 8 {
+				return total, bsonerr.StringLargerThanContainer
+			}
+
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 			total += 4
 			// If the length of the string is larger than the total length of the
@@ -436,6 +469,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			if sLength > l-13 {
 				return total, bsonerr.StringLargerThanContainer
 			}
+
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
 			// We check if the value that is the last element of the string is a
 			// null terminator. We take the value offset, add 4 to account for the
 			// length, add the length of the string, and subtract one since the size
-- 
2.43.0


From fe0b6c1d99a3c883eacf5174fa6c3f954e153b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:35 +0000
Subject: [PATCH 05/28] fix: a Reader iterator over a document with a negative
 length ran past the data

---
 iterator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iterator.go b/iterator.go
index 13b7982..994b6db 100644
--- a/iterator.go
+++ b/iterator.go
@@ -69,7 +69,7 @@ func newReaderIterator(r Reader) (*readerIterator, error) {
 	}
 
 	givenLength := readi32(r[0:4])
-	if len(r) < int(givenLength) {
+	if len(r) < int(givenLength) || givenLength < 0 {
 		return nil, bsonerr.InvalidLength
 	}
 
-- 
2.43.0


From fc3e63a3527bcff361e3fa9001f0f7d363b99c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:35 +0000
Subject: [PATCH 06/28] fix: reading a document with a length below four from
 an io.Reader panicked

---
 document.go | 3 +++
 reader.go   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index d067d6c..f7cf002 100644
--- a/document.go
+++ b/document.go
@@ -320,6 +320,9 @@ func (d *Document) ReadFrom(r io.Reader) (int64, error) {
 	}
 
 	givenLength := readi32(sizeBuf)
+	if givenLength < 4 {
+		return total, bsonerr.InvalidLength
+	}
 
 	b := stw.NewSlice(bufpool.Get())
 	b.Grow(int(givenLength))
diff --git a/reader.go b/reader.go
index 35cb6c7..fe2762b 100644
--- a/reader.go
+++ b/reader.go
@@ -48,7 +48,7 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 	}
 
 	length := readi32(lengthBytes[:])
-	if length < 0 {
+	if length < 4 {
 		return nil, bsonerr.InvalidLength
 	}
 
-- 
2.43.0


From ef7e8c5fcdf57af0d5324d6058aa7e33839ba1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:49 +0000
Subject: [PATCH 07/28] fix: elements whose key holds a NUL byte were written
 truncated

---
 element.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/element.go b/element.go
index 9424d8f..6c1d47a 100644
--- a/element.go
+++ b/element.go
@@ -94,6 +94,11 @@ func (e *Element) validateKey() (uint32, error) {
 	}
 	total++
 
+	// A key with an embedded NUL would be truncated when it is written.
+	if pos+1 != e.value.offset {
+		return total, bsonerr.InvalidKey
+	}
+
 	return total, nil
 }
 
-- 
2.43.0


From 8f74033a224d8a3ccb987b0001c01a9d62633201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:10 +0000
Subject: [PATCH 08/28] fix: documents whose declared length does not end at
 their terminator were accepted

---
 iterator.go | 5 +++++
 reader.go   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/iterator.go b/iterator.go
index 994b6db..548d83c 100644
--- a/iterator.go
+++ b/iterator.go
@@ -90,6 +90,11 @@ func (itr *readerIterator) Next() bool {
 	}
 
 	if itr.r[itr.pos] == '\x00' {
+		if itr.pos+1 != itr.end {
+			// The declared length does not end at the terminator.
+			itr.err = bsonerr.InvalidLength
+		}
+
 		return false
 	}
 
diff --git a/reader.go b/reader.go
index fe2762b..20ada2a 100644
--- a/reader.go
+++ b/reader.go
@@ -265,6 +265,11 @@ func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
 		}
 
 		if r[pos] == '\x00' {
+			if pos+1 != end {
+				// The declared length does not end at the terminator.
+				return pos, bsonerr.InvalidLength
+			}
+
 			break
 		}
 
-- 
2.43.0


From d2c5bec83ba95ab49092230b4d289e60a7f24648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:28 +0000
Subject: [PATCH 09/28] fix: checked accessors of embedded documents and scopes
 panicked on malformed bytes

---
 value.go | 209 ++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 145 insertions(+), 64 deletions(-)

diff --git a/value.go b/value.go
index 452a2a1..efd9279 100644
--- a/value.go
+++ b/value.go
@@ -611,21 +611,61 @@ func (v *Value) Reader() Reader {
 }
 
 func (v *Value) getReader() Reader {
-	var r Reader
+	r, err := v.getReaderErr()
+	if err != nil {
+		panic(err)
+	}
+
+	return r
+}
 
+func (v *Value) getReaderErr() (Reader, error) {
 	if v.d == nil {
-		l := readi32(v.data[v.offset : v.offset+4])
-		r = Reader(v.data[v.offset : v.offset+uint32(l)])
-	} else {
-		scope, err := v.d.MarshalBSON()
-		if err != nil {
-			panic(err)
-		}
+		return v.embeddedBytes()
+	}
 
-		r = Reader(scope)
+	if v.data[v.start] == '\x04' {
+		return (&Array{doc: v.d}).MarshalBSON()
 	}
 
-	return r
+	return v.d.MarshalBSON()
+}
+
+// embeddedBytes returns the bytes of an embedded document or array, which
+// start with their own length.
+func (v *Value) embeddedBytes() (Reader, error) {
+	if int64(v.offset)+4 > int64(len(v.data)) {
+		return nil, errTooSmall
+	}
+
+	l := readi32(v.data[v.offset : v.offset+4])
+	if l < 0 || int64(v.offset)+int64(l) > int64(len(v.data)) {
+		return nil, bsonerr.InvalidLength
+	}
+
+	return Reader(v.data[v.offset : v.offset+uint32(l)]), nil
+}
+
+// loadDocument parses the bytes of an embedded document or array, unless the
+// value already holds the document.
+func (v *Value) loadDocument() error {
+	if v.d != nil {
+		return nil
+	}
+
+	r, err := v.embeddedBytes()
+	if err != nil {
+		return err
+	}
+
+	d, err := ReadDocument(r)
+	if err != nil {
+		return err
+	}
+
+	v.d = d
+
+	return nil
 }
 
 // ReaderDocumentOK is the same as ReaderDocument, except it returns a boolean
@@ -635,7 +675,12 @@ func (v *Value) ReaderDocumentOK() (Reader, bool) {
 		return nil, false
 	}
 
-	return v.ReaderDocument(), true
+	r, err := v.getReaderErr()
+	if err != nil {
+		return nil, false
+	}
+
+	return r, true
 }
 
 // MutableDocument returns the subdocument for this element.
@@ -648,15 +693,8 @@ func (v *Value) MutableDocument() *Document {
 		panic(bsonerr.NewElementTypeError("compact.Element.Document", bsontype.Type(v.data[v.start])))
 	}
 
-	if v.d == nil {
-		var err error
-
-		l := int32(binary.LittleEndian.Uint32(v.data[v.offset : v.offset+4]))
-
-		v.d, err = ReadDocument(v.data[v.offset : v.offset+uint32(l)])
-		if err != nil {
-			panic(err)
-		}
+	if err := v.loadDocument(); err != nil {
+		panic(err)
 	}
 
 	return v.d
@@ -669,7 +707,11 @@ func (v *Value) MutableDocumentOK() (*Document, bool) {
 		return nil, false
 	}
 
-	return v.MutableDocument(), true
+	if err := v.loadDocument(); err != nil {
+		return nil, false
+	}
+
+	return v.d, true
 }
 
 // ReaderArray returns the BSON document the Value represents as a bson.Reader. It panics if the
@@ -693,7 +735,12 @@ func (v *Value) ReaderArrayOK() (Reader, bool) {
 		return nil, false
 	}
 
-	return v.ReaderArray(), true
+	r, err := v.getReaderErr()
+	if err != nil {
+		return nil, false
+	}
+
+	return r, true
 }
 
 // MutableArray returns the array for this element.
@@ -706,15 +753,8 @@ func (v *Value) MutableArray() *Array {
 		panic(bsonerr.NewElementTypeError("compact.Element.Array", bsontype.Type(v.data[v.start])))
 	}
 
-	if v.d == nil {
-		var err error
-
-		l := int32(binary.LittleEndian.Uint32(v.data[v.offset : v.offset+4]))
-		v.d, err = ReadDocument(v.data[v.offset : v.offset+uint32(l)])
-
-		if err != nil {
-			panic(err)
-		}
+	if err := v.loadDocument(); err != nil {
+		panic(err)
 	}
 
 	return &Array{v.d}
@@ -727,7 +767,11 @@ func (v *Value) MutableArrayOK() (*Array, bool) {
 		return nil, false
 	}
 
-	return v.MutableArray(), true
+	if err := v.loadDocument(); err != nil {
+		return nil, false
+	}
+
+	return &Array{v.d}, true
 }
 
 // Binary returns the BSON binary value the Value represents. It panics if the value is a BSON type
@@ -987,27 +1031,50 @@ func (v *Value) ReaderJavaScriptWithScope() (string, Reader) {
 		panic(bsonerr.NewElementTypeError("compact.Element.JavaScriptWithScope", bsontype.Type(v.data[v.start])))
 	}
 
-	sLength := readi32(v.data[v.offset+4 : v.offset+8])
-	// If the length of the string is larger than the total length of the
-	// field minus the int32 for length, 5 bytes for a minimum document
-	// size, and an int32 for the string length the value is invalid.
-	str := string(v.data[v.offset+8 : v.offset+8+uint32(sLength)-1])
+	str, r, err := v.codeAndReader()
+	if err != nil {
+		panic(err)
+	}
 
-	var r Reader
+	return str, r
+}
 
-	if v.d == nil {
-		l := readi32(v.data[v.offset : v.offset+4])
-		r = Reader(v.data[v.offset+8+uint32(sLength) : v.offset+uint32(l)])
-	} else {
-		scope, err := v.d.MarshalBSON()
-		if err != nil {
-			panic(err)
-		}
+// codeAndScope returns the code and, unless the value already holds the scope
+// document, the bytes of the scope.
+func (v *Value) codeAndScope() (string, Reader, error) {
+	data := v.data[v.offset:]
+	if len(data) < 8 {
+		return "", nil, errTooSmall
+	}
 
-		r = Reader(scope)
+	sLength := readi32(data[4:8])
+	if sLength < 1 || int64(sLength)+8 > int64(len(data)) {
+		return "", nil, bsonerr.InvalidString
 	}
 
-	return str, r
+	str := string(data[8 : 8+sLength-1])
+
+	if v.d != nil {
+		return str, nil, nil
+	}
+
+	l := readi32(data[0:4])
+	if int64(l) < int64(sLength)+8 || int64(l) > int64(len(data)) {
+		return "", nil, bsonerr.InvalidLength
+	}
+
+	return str, Reader(data[8+sLength : l]), nil
+}
+
+func (v *Value) codeAndReader() (string, Reader, error) {
+	str, r, err := v.codeAndScope()
+	if err != nil || v.d == nil {
+		return str, r, err
+	}
+
+	r, err = v.d.MarshalBSON()
+
+	return str, r, err
 }
 
 // ReaderJavaScriptWithScopeOK is the same as ReaderJavaScriptWithScope,
@@ -1017,7 +1084,10 @@ func (v *Value) ReaderJavaScriptWithScopeOK() (string, Reader, bool) {
 		return "", nil, false
 	}
 
-	s, r := v.ReaderJavaScriptWithScope()
+	s, r, err := v.codeAndReader()
+	if err != nil {
+		return "", nil, false
+	}
 
 	return s, r, true
 }
@@ -1025,32 +1095,40 @@ func (v *Value) ReaderJavaScriptWithScopeOK() (string, Reader, bool) {
 // MutableJavaScriptWithScope returns the javascript code and the scope document for
 // this element.
 func (v *Value) MutableJavaScriptWithScope() (code string, d *Document) {
-	if v == nil || v.offset == 0 {
+	if v == nil || v.offset == 0 || v.data == nil {
 		panic(bsonerr.UninitializedElement)
 	}
 
 	if v.data[v.start] != '\x0F' {
 		panic(bsonerr.NewElementTypeError("compact.Element.JavaScriptWithScope", bsontype.Type(v.data[v.start])))
 	}
-	// TODO(skriptble): This is wrong and could cause a panic.
-	l := int32(binary.LittleEndian.Uint32(v.data[v.offset : v.offset+4]))
-	// TODO(skriptble): This is wrong and could cause a panic.
-	sLength := int32(binary.LittleEndian.Uint32(v.data[v.offset+4 : v.offset+8]))
-	// If the length of the string is larger than the total length of the
-	// field minus the int32 for length, 5 bytes for a minimum document
-	// size, and an int32 for the string length the value is invalid.
-	str := string(v.data[v.offset+4+4 : v.offset+4+4+uint32(sLength)-1]) // offset + total length + string length + bytes - null byte
 
-	if v.d == nil {
-		var err error
+	str, d, err := v.codeAndDocument()
+	if err != nil {
+		panic(err)
+	}
+
+	return str, d
+}
+
+// codeAndDocument returns the code and the scope document, which it parses if
+// the value does not hold it already.
+func (v *Value) codeAndDocument() (string, *Document, error) {
+	str, r, err := v.codeAndScope()
+	if err != nil {
+		return "", nil, err
+	}
 
-		v.d, err = ReadDocument(v.data[v.offset+4+4+uint32(sLength) : v.offset+uint32(l)])
+	if v.d == nil {
+		d, err := ReadDocument(r)
 		if err != nil {
-			panic(err)
+			return "", nil, err
 		}
+
+		v.d = d
 	}
 
-	return str, v.d
+	return str, v.d, nil
 }
 
 // MutableJavaScriptWithScopeOK is the same as MutableJavascriptWithScope,
@@ -1060,7 +1138,10 @@ func (v *Value) MutableJavaScriptWithScopeOK() (string, *Document, bool) {
 		return "", nil, false
 	}
 
-	s, d := v.MutableJavaScriptWithScope()
+	s, d, err := v.codeAndDocument()
+	if err != nil {
+		return "", nil, false
+	}
 
 	return s, d, true
 }
-- 
2.43.0


From 9afcf796fa48181a74f42509e1afaa2c5480e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:47 +0000
Subject: [PATCH 10/28] fix: comparing values with a negative length prefix
 panicked

---
 x_core.go  | 2 +-
 x_value.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/x_core.go b/x_core.go
index 5931940..f6d82b9 100644
--- a/x_core.go
+++ b/x_core.go
@@ -52,7 +52,7 @@ func readValue(src []byte, t bsontype.Type) ([]byte, []byte, bool) {
 		ok = false
 	}
 
-	if !ok || int(length) > len(src) {
+	if !ok || length < 0 || int(length) > len(src) {
 		return nil, src, false
 	}
 
diff --git a/x_value.go b/x_value.go
index 052b41e..9b0f083 100644
--- a/x_value.go
+++ b/x_value.go
@@ -31,7 +31,7 @@ func readstring(src []byte) (string, []byte, bool) {
 		return "", src, false
 	}
 
-	if len(src[4:]) < int(l) {
+	if l < 1 || len(src[4:]) < int(l) {
 		return "", src, false
 	}
 
-- 
2.43.0


From 8cbe09be1c807fbb7567c0e13100616c573b23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:59 +0000
Subject: [PATCH 11/28] fix: Value.IsEmpty reported every ObjectID as empty

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index efd9279..5e9c442 100644
--- a/value.go
+++ b/value.go
@@ -150,7 +150,7 @@ func (v *Value) IsEmpty() bool {
 	case bsontype.Undefined:
 		return true
 	case bsontype.ObjectID:
-		return true
+		return v.ObjectID().IsZero()
 	case bsontype.Boolean:
 		return !v.Boolean()
 	case bsontype.DateTime:
-- 
2.43.0


From a1b24fa70fdfda03bec2c033e53155704e783ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:03 +0000
Subject: [PATCH 12/28] fix: keep the overflow of the 128-bit multiply-add

muladd masked the top partial product before taking the overflow word,
so ParseDecimal128 accepted out-of-range numbers such as
8554698711491065196077550259138253E6120 with a wrong value.
---
 types/decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/decimal.go b/types/decimal.go
index 64bcad2..fe1a48c 100644
--- a/types/decimal.go
+++ b/types/decimal.go
@@ -357,7 +357,7 @@ func muladd(h, l uint64, mul uint32, add uint32) (resh, resl uint64, overflow ui
 	a = a&(1<<32-1) + uint64(add)
 	b = b&(1<<32-1) + a>>32
 	c = c&(1<<32-1) + b>>32
-	d = d&(1<<32-1) + c>>32
+	d += c >> 32 // keeps the bits above the 128 for the overflow word
 
 	return (d<<32 | c&(1<<32-1)), (b<<32 | a&(1<<32-1)), uint32(d >> 32)
 }
-- 
2.43.0


From ea401f54f5c27279a46fce16c1dc9cc3c305311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:15 +0000
Subject: [PATCH 13/28] fix: wire message parsers panicked on invalid
 documents, empty command queries and negative cursor counts

---
 x/mrpc/mongowire/wire_command_reply.go | 27 ++++++++++----------------
 x/mrpc/mongowire/wire_delete.go        |  3 +--
 x/mrpc/mongowire/wire_insert.go        |  4 ++--
 x/mrpc/mongowire/wire_kill_cursors.go  |  4 ++++
 x/mrpc/mongowire/wire_query.go         | 16 +++++++++------
 x/mrpc/mongowire/wire_reply.go         |  4 ++--
 x/mrpc/mongowire/wire_update.go        | 16 ++++++---------
 x/mrpc/mongowire/wireutil.go           | 21 ++++++++++++++++++++
 8 files changed, 56 insertions(+), 39 deletions(-)

diff --git a/x/mrpc/mongowire/wire_command_reply.go b/x/mrpc/mongowire/wire_command_reply.go
index e4a1212..dd5ac2d 100644
--- a/x/mrpc/mongowire/wire_command_reply.go
+++ b/x/mrpc/mongowire/wire_command_reply.go
@@ -2,7 +2,6 @@ package mongowire
 
 import (
 	"bytes"
-	"errors"
 
 	"github.com/tychoish/birch"
 )
@@ -51,35 +50,29 @@ func (h *MessageHeader) parseCommandReplyMessage(buf []byte) (Message, error) {
 		header: *h,
 	}
 
-	var err error
+	var (
+		err  error
+		size int
+	)
 
-	rm.CommandReply, err = birch.ReadDocument(buf)
+	rm.CommandReply, size, err = readDocument(buf)
 	if err != nil {
 		return nil, err
 	}
+	buf = buf[size:]
 
-	replySize := getDocSize(rm.CommandReply)
-	if len(buf) < replySize {
-		return nil, errors.New("invalid command message -- message length is too short")
-	}
-	buf = buf[replySize:]
-
-	rm.Metadata, err = birch.ReadDocument(buf)
+	rm.Metadata, size, err = readDocument(buf)
 	if err != nil {
 		return nil, err
 	}
-	metaSize := getDocSize(rm.Metadata)
-	if len(buf) < metaSize {
-		return nil, errors.New("invalid command message -- message length is too short")
-	}
-	buf = buf[metaSize:]
+	buf = buf[size:]
 
 	for len(buf) > 0 {
-		doc, err := birch.ReadDocument(buf)
+		doc, size, err := readDocument(buf)
 		if err != nil {
 			return nil, err
 		}
-		buf = buf[getDocSize(doc):]
+		buf = buf[size:]
 		rm.OutputDocs = append(rm.OutputDocs, *doc.Copy())
 	}
 
diff --git a/x/mrpc/mongowire/wire_delete.go b/x/mrpc/mongowire/wire_delete.go
index 4dc3669..5d79c5c 100644
--- a/x/mrpc/mongowire/wire_delete.go
+++ b/x/mrpc/mongowire/wire_delete.go
@@ -73,11 +73,10 @@ func (h *MessageHeader) parseDeleteMessage(buf []byte) (Message, error) {
 	m.Flags = readInt32(buf[loc:])
 	loc += 4
 
-	m.Filter, err = birch.ReadDocument(buf[loc:])
+	m.Filter, _, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
-	loc += int(getDocSize(m.Filter)) // nolint
 
 	return m, nil
 }
diff --git a/x/mrpc/mongowire/wire_insert.go b/x/mrpc/mongowire/wire_insert.go
index 2b75dc3..f6cabed 100644
--- a/x/mrpc/mongowire/wire_insert.go
+++ b/x/mrpc/mongowire/wire_insert.go
@@ -72,12 +72,12 @@ func (h *MessageHeader) parseInsertMessage(buf []byte) (Message, error) {
 	loc += len(m.Namespace) + 1
 
 	for loc < len(buf) {
-		doc, err := birch.ReadDocument(buf[loc:])
+		doc, size, err := readDocument(buf[loc:])
 		if err != nil {
 			return nil, err
 		}
 		m.Docs = append(m.Docs, *doc.Copy())
-		loc += getDocSize(doc)
+		loc += size
 	}
 
 	return m, nil
diff --git a/x/mrpc/mongowire/wire_kill_cursors.go b/x/mrpc/mongowire/wire_kill_cursors.go
index 4bd457b..6755623 100644
--- a/x/mrpc/mongowire/wire_kill_cursors.go
+++ b/x/mrpc/mongowire/wire_kill_cursors.go
@@ -56,6 +56,10 @@ func (h *MessageHeader) parseKillCursorsMessage(buf []byte) (Message, error) {
 	m.NumCursors = readInt32(buf[loc:])
 	loc += 4
 
+	if m.NumCursors < 0 {
+		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d is negative", m.NumCursors)
+	}
+
 	if len(buf[loc:]) < int(m.NumCursors)*8 {
 		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d is larger than number of cursors in message", m.NumCursors)
 	}
diff --git a/x/mrpc/mongowire/wire_query.go b/x/mrpc/mongowire/wire_query.go
index ff7510a..c956bf2 100644
--- a/x/mrpc/mongowire/wire_query.go
+++ b/x/mrpc/mongowire/wire_query.go
@@ -73,8 +73,9 @@ func (h *MessageHeader) parseQueryMessage(buf []byte) (Message, error) {
 	}
 
 	var (
-		loc int
-		err error
+		loc  int
+		size int
+		err  error
 	)
 
 	qm := &queryMessage{
@@ -99,21 +100,24 @@ func (h *MessageHeader) parseQueryMessage(buf []byte) (Message, error) {
 	qm.NReturn = readInt32(buf[loc:])
 	loc += 4
 
-	qm.Query, err = birch.ReadDocument(buf[loc:])
+	qm.Query, size, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
-	loc += getDocSize(qm.Query)
+	loc += size
 
 	if loc < len(buf) {
-		qm.Project, err = birch.ReadDocument(buf[loc:])
+		qm.Project, _, err = readDocument(buf[loc:])
 		if err != nil {
 			return nil, err
 		}
-		loc += getDocSize(qm.Project) // nolint
 	}
 
 	if NamespaceIsCommand(qm.Namespace) {
+		if qm.Query.Len() == 0 {
+			return nil, errors.New("invalid query message -- command document is empty")
+		}
+
 		return qm.convertToCommand(), nil
 	}
 
diff --git a/x/mrpc/mongowire/wire_reply.go b/x/mrpc/mongowire/wire_reply.go
index c0a6b47..d08386f 100644
--- a/x/mrpc/mongowire/wire_reply.go
+++ b/x/mrpc/mongowire/wire_reply.go
@@ -72,12 +72,12 @@ func (h *MessageHeader) parseReplyMessage(buf []byte) (Message, error) {
 	loc += 4
 
 	for loc < len(buf) {
-		doc, err := birch.ReadDocument(buf[loc:])
+		doc, size, err := readDocument(buf[loc:])
 		if err != nil {
 			return nil, err
 		}
 		rm.Docs = append(rm.Docs, *doc.Copy())
-		loc += getDocSize(doc)
+		loc += size
 	}
 
 	return rm, nil
diff --git a/x/mrpc/mongowire/wire_update.go b/x/mrpc/mongowire/wire_update.go
index 748be5f..b2d2c18 100644
--- a/x/mrpc/mongowire/wire_update.go
+++ b/x/mrpc/mongowire/wire_update.go
@@ -51,8 +51,9 @@ func (m *updateMessage) Serialize() []byte {
 
 func (h *MessageHeader) parseUpdateMessage(buf []byte) (Message, error) {
 	var (
-		err error
-		loc int
+		err  error
+		loc  int
+		size int
 	)
 
 	if len(buf) < 4 {
@@ -79,21 +80,16 @@ func (h *MessageHeader) parseUpdateMessage(buf []byte) (Message, error) {
 	m.Flags = readInt32(buf[loc:])
 	loc += 4
 
-	m.Filter, err = birch.ReadDocument(buf[loc:])
+	m.Filter, size, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
-	loc += getDocSize(m.Filter)
+	loc += size
 
-	if len(buf) < loc {
-		return m, errors.New("invalid update message -- message length is too short")
-	}
-
-	m.Update, err = birch.ReadDocument(buf[loc:])
+	m.Update, _, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
-	loc += getDocSize(m.Update) // nolint
 
 	return m, nil
 }
diff --git a/x/mrpc/mongowire/wireutil.go b/x/mrpc/mongowire/wireutil.go
index b6cd570..f81d092 100644
--- a/x/mrpc/mongowire/wireutil.go
+++ b/x/mrpc/mongowire/wireutil.go
@@ -84,3 +84,24 @@ func getDocSize(doc *birch.Document) int {
 	}
 	return int(must(doc.Validate()))
 }
+
+// readDocument reads the document at the start of the buffer and
+// returns it with its size, reporting an error, rather than panicking
+// (as in getDocSize,) when the document isn't valid.
+func readDocument(buf []byte) (*birch.Document, int, error) {
+	doc, err := birch.ReadDocument(buf)
+	if err != nil {
+		return nil, 0, err
+	}
+
+	size, err := doc.Validate()
+	if err != nil {
+		return nil, 0, err
+	}
+
+	if int(size) > len(buf) {
+		return nil, 0, errors.New("invalid message -- document is longer than the message")
+	}
+
+	return doc, int(size), nil
+}
-- 
2.43.0


From 2227c4ad0c0e66d8a5c2b4f7952f127b4ff79f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:44 +0000
Subject: [PATCH 14/28] fix: parsing an OP_MSG body panicked, looped or dropped
 errors on malformed sections

---
 x/mrpc/mongowire/wire_message.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index 413853f..845e6f3 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -29,7 +29,12 @@ type opMessagePayloadType0 struct {
 func (p *opMessagePayloadType0) Type() uint8 { return OpMessageSectionBody }
 
 func (p *opMessagePayloadType0) Name() string {
-	return p.Document.ElementAt(0).Key()
+	elem, ok := p.Document.ElementAtOK(0)
+	if !ok {
+		return ""
+	}
+
+	return elem.Key()
 }
 
 func (p *opMessagePayloadType0) DB() string {
@@ -202,10 +207,13 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 		var err error
 		switch kind {
 		case OpMessageSectionBody:
+			var size int
 			section := &opMessagePayloadType0{}
-			docSize := int(readInt32(body[loc:]))
-			section.Document, err = birch.ReadDocument(body[loc : loc+docSize])
-			loc += getDocSize(section.Document)
+			section.Document, size, err = readDocument(body[loc:])
+			if err != nil {
+				return nil, fmt.Errorf("could not read body document: %w", err)
+			}
+			loc += size
 			msg.Items = append(msg.Items, section)
 		case OpMessageSectionDocumentSequence:
 			section := &opMessagePayloadType1{}
@@ -218,14 +226,16 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 			loc += len(section.Identifier) + 1 // c string null terminator
 
 			for remaining := int(section.Size) - 1 - 4 - len(section.Identifier) - 1; remaining > 0; {
-				docSize := int(readInt32(body[loc:]))
-				doc, err := birch.ReadDocument(body[loc : loc+docSize])
+				doc, size, err := readDocument(body[loc:])
 				if err != nil {
 					return nil, fmt.Errorf("could not read payload document: %w", err)
 				}
+				if size > remaining {
+					return nil, errors.New("invalid op message - payload document is longer than its section")
+				}
 				section.Payload = append(section.Payload, *doc.Copy())
-				remaining -= docSize
-				loc += docSize
+				remaining -= size
+				loc += size
 			}
 			msg.Items = append(msg.Items, section)
 		default:
@@ -238,7 +248,5 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 		loc += 4
 	}
 
-	msg.header.Size = int32(loc)
-
 	return msg, nil
 }
-- 
2.43.0


From 12c8f6b145243675bafd50070bda90e191e9103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:45 +0000
Subject: [PATCH 15/28] fix: the more-to-come flag of an OP_MSG was never set

---
 x/mrpc/mongowire/message.go      | 11 ++---------
 x/mrpc/mongowire/wire_message.go |  7 ++++++-
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/x/mrpc/mongowire/message.go b/x/mrpc/mongowire/message.go
index 1fd148d..2ecce94 100644
--- a/x/mrpc/mongowire/message.go
+++ b/x/mrpc/mongowire/message.go
@@ -143,15 +143,8 @@ func GetModel(msg Message) (any, OpType) {
 			Operation:  m.Operation,
 		}
 
-		switch m.Flags {
-		case 0:
-			op.Checksum = true
-		case 1:
-			op.MoreToCome = true
-		case 3:
-			op.Checksum = true
-			op.MoreToCome = true
-		}
+		op.Checksum = m.Flags&opMessageChecksumPresent != 0
+		op.MoreToCome = m.Flags&opMessageMoreToCome != 0
 
 		for _, section := range m.Items {
 			op.Items = append(op.Items, model.SequenceItem{
diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index 845e6f3..3234e95 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -22,6 +22,11 @@ const (
 	OpMessageSectionDocumentSequence = 1
 )
 
+const (
+	opMessageChecksumPresent = 1 << 0
+	opMessageMoreToCome      = 1 << 1
+)
+
 type opMessagePayloadType0 struct {
 	Document *birch.Document
 }
@@ -168,7 +173,7 @@ func NewOpMessage(moreToCome bool, documents []birch.Document, items ...model.Se
 	}
 
 	if moreToCome {
-		msg.Flags = msg.Flags & 1
+		msg.Flags |= opMessageMoreToCome
 	}
 
 	for idx := range items {
-- 
2.43.0


From bff0a5ed9b3b9cf1a47428257d8d8afe0f4045de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:46 +0000
Subject: [PATCH 16/28] fix: ReadMessage consumed bytes of the next message
 after a short read

---
 x/mrpc/mongowire/sock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/mrpc/mongowire/sock.go b/x/mrpc/mongowire/sock.go
index 0f7ccb0..1bf2a38 100644
--- a/x/mrpc/mongowire/sock.go
+++ b/x/mrpc/mongowire/sock.go
@@ -59,7 +59,7 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 	restBuf := &bytes.Buffer{}
 	for read := 0; int32(read) < header.Size-4; {
 		readFinished = make(chan readResult)
-		tempBuf := make([]byte, header.Size-4)
+		tempBuf := make([]byte, header.Size-4-int32(read))
 		go func() {
 			defer close(readFinished)
 			n, err := reader.Read(tempBuf)
-- 
2.43.0


From fe007f044da0698c7b6982c488df59e40909d07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:04 +0000
Subject: [PATCH 17/28] fix: ReadMessage accepted messages cut short by the end
 of the stream

---
 x/mrpc/mongowire/sock.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/x/mrpc/mongowire/sock.go b/x/mrpc/mongowire/sock.go
index 1bf2a38..4c1faf8 100644
--- a/x/mrpc/mongowire/sock.go
+++ b/x/mrpc/mongowire/sock.go
@@ -72,18 +72,17 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 		case <-ctx.Done():
 			return nil, (ctx.Err())
 		case res := <-readFinished:
+			read += res.n
+			restBuf.Write(tempBuf[:res.n])
 			if res.err == io.EOF {
-				read = int(header.Size - 4)
+				if int32(read) < header.Size-4 {
+					return nil, io.ErrUnexpectedEOF
+				}
 				break
 			}
 			if res.err != nil {
 				return nil, (res.err)
 			}
-			if res.n == 0 {
-				break
-			}
-			read += res.n
-			restBuf.Write(tempBuf[:res.n])
 		}
 	}
 
-- 
2.43.0


From 6ed0a97e44a1b457b277020eafe411290d830eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:19 +0000
Subject: [PATCH 18/28] fix: code with scope was accepted with a length its
 contents do not fill

---
 value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/value.go b/value.go
index 5e9c442..8ef3f05 100644
--- a/value.go
+++ b/value.go
@@ -489,6 +489,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 				return total, err
 			}
 
+			// The scope has to fill what remains of the declared length.
+			if total != uint32(l) {
+				return total, bsonerr.InvalidLength
+			}
+
 			break
 		}
 
-- 
2.43.0


From 6f0a860a60ca874805ea5ffacbb12476d9d7d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:01 +0000
Subject: [PATCH 19/28] fix: ftdc restored the difference of two doubles
 instead of the double

---
 x/ftdc/bson_extract.go | 2 +-
 x/ftdc/read.go         | 8 +-------
 x/ftdc/util.go         | 7 -------
 3 files changed, 2 insertions(+), 15 deletions(-)

diff --git a/x/ftdc/bson_extract.go b/x/ftdc/bson_extract.go
index fcde3f2..7f230a0 100644
--- a/x/ftdc/bson_extract.go
+++ b/x/ftdc/bson_extract.go
@@ -112,7 +112,7 @@ func extractMetricsFromValue(val *birch.Value) (extractedMetrics, error) {
 func extractDelta(current *birch.Value, previous *birch.Value) (int64, error) {
 	switch current.Type() {
 	case bsontype.Double:
-		return normalizeFloat(current.Double() - previous.Double()), nil
+		return normalizeFloat(current.Double()) - normalizeFloat(previous.Double()), nil
 	case bsontype.Int64:
 		return current.Int64() - previous.Int64(), nil
 	default:
diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index da942bb..011a328 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -11,7 +11,6 @@ import (
 	"io"
 
 	"github.com/tychoish/birch"
-	"github.com/tychoish/birch/bsontype"
 )
 
 func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document) error {
@@ -135,12 +134,7 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 					}
 					metrics[i].Values[j] = int64(delta)
 				}
-				if metrics[i].originalType == bsontype.Double {
-					metrics[i].Values = undeltaFloats(v.startingValue, metrics[i].Values)
-				} else {
-					metrics[i].Values = undelta(v.startingValue, metrics[i].Values)
-				}
-
+				metrics[i].Values = undelta(v.startingValue, metrics[i].Values)
 			}
 			select {
 			case o <- &Chunk{
diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 505e7cd..6b0171b 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -57,13 +57,6 @@ func readDocument(in any) (*birch.Document, error) {
 
 func getOffset(count, sample, metric int) int { return metric*count + sample }
 
-func undeltaFloats(value int64, deltas []int64) []int64 {
-	out := make([]int64, 1, len(deltas)+1)
-	out[0] = value
-
-	return append(out, deltas...)
-}
-
 func undelta(value int64, deltas []int64) []int64 {
 	out := make([]int64, len(deltas)+1)
 	out[0] = value
-- 
2.43.0


From 1f67743512fc0846e9fe31f2f0489e824e7a3bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:01 +0000
Subject: [PATCH 20/28] fix: ftdc lost dates outside the range of a nanosecond
 count

---
 x/ftdc/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 6b0171b..e85237b 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -104,7 +104,7 @@ func compressBuffer(input []byte) ([]byte, error) {
 
 func normalizeFloat(in float64) int64 { return int64(math.Float64bits(in)) }
 func restoreFloat(in int64) float64   { return math.Float64frombits(uint64(in)) }
-func epochMs(t time.Time) int64       { return t.UnixNano() / 1000000 }
+func epochMs(t time.Time) int64       { return t.UnixMilli() }
 func timeEpocMs(in int64) time.Time   { return time.Unix(in/1000, in%1000*1000000) }
 
 func isNum(num int, val *birch.Value) bool {
-- 
2.43.0


From 189c1f9544329006b217a31337760df914762a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:45 +0000
Subject: [PATCH 21/28] fix: ftdc named the metrics of nested documents by the
 outermost document only

---
 x/ftdc/bson_metric.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/x/ftdc/bson_metric.go b/x/ftdc/bson_metric.go
index 6512780..7790dda 100644
--- a/x/ftdc/bson_metric.go
+++ b/x/ftdc/bson_metric.go
@@ -48,18 +48,7 @@ func metricForType(key string, path []string, val *birch.Value) []Metric {
 	case bsontype.Array:
 		return metricForArray(key, path, val.MutableArray())
 	case bsontype.EmbeddedDocument:
-		path = append(path, key)
-
-		o := []Metric{}
-		for _, ne := range metricForDocument(path, val.MutableDocument()) {
-			o = append(o, Metric{
-				ParentPath:    path,
-				KeyName:       ne.KeyName,
-				startingValue: ne.startingValue,
-				originalType:  ne.originalType,
-			})
-		}
-		return o
+		return metricForDocument(append(path[:len(path):len(path)], key), val.MutableDocument())
 	case bsontype.Boolean:
 		if val.Boolean() {
 			return []Metric{
-- 
2.43.0


From a551b71a21d9a35b218e03cb70e422d7af083e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:45 +0000
Subject: [PATCH 22/28] fix: the dynamic ftdc collector compared samples with
 its first schema instead of the current one

---
 x/ftdc/collector_dynamic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/collector_dynamic.go b/x/ftdc/collector_dynamic.go
index 443cd93..5084164 100644
--- a/x/ftdc/collector_dynamic.go
+++ b/x/ftdc/collector_dynamic.go
@@ -66,11 +66,14 @@ func (c *dynamicCollector) Add(in any) error {
 
 	lastChunk := c.chunks[len(c.chunks)-1]
 
-	docHash, _ := metricKeyHash(doc)
+	docHash, num := metricKeyHash(doc)
 	if c.hash == docHash {
 		return (lastChunk.Add(doc))
 	}
 
+	c.hash = docHash
+	c.currentNum = num
+
 	chunk := newBatchCollector(c.maxSamples)
 	c.chunks = append(c.chunks, chunk)
 
-- 
2.43.0


From 626c1d479fab1c898103adf71b5f4b950e3c6cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:45 +0000
Subject: [PATCH 23/28] fix: ftdc took schemas for the same that differ in
 types or in how keys are nested

---
 x/ftdc/bson_hash.go | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/x/ftdc/bson_hash.go b/x/ftdc/bson_hash.go
index 3976f0e..c8d755d 100644
--- a/x/ftdc/bson_hash.go
+++ b/x/ftdc/bson_hash.go
@@ -19,7 +19,7 @@ func metricKeyHashDocument(checksum hash.Hash, key string, doc *birch.Document)
 	seen := 0
 
 	for elem := range doc.Iterator() {
-		seen += metricKeyHashValue(checksum, fmt.Sprintf("%s.%s", key, elem.Key()), elem.Value())
+		seen += metricKeyHashValue(checksum, fmt.Sprintf("%s\x00%s", key, elem.Key()), elem.Value())
 	}
 
 	return seen
@@ -30,7 +30,7 @@ func metricKeyHashArray(checksum hash.Hash, key string, array *birch.Array) int
 	idx := 0
 
 	for value := range array.Iterator() {
-		seen += metricKeyHashValue(checksum, fmt.Sprintf("%s.%d", key, idx), value)
+		seen += metricKeyHashValue(checksum, fmt.Sprintf("%s\x00[%d]", key, idx), value)
 		idx++
 	}
 
@@ -38,30 +38,24 @@ func metricKeyHashArray(checksum hash.Hash, key string, array *birch.Array) int
 }
 
 func metricKeyHashValue(checksum hash.Hash, key string, value *birch.Value) int {
-	switch value.Type() {
+	switch t := value.Type(); t {
 	case bsontype.Array:
 		return metricKeyHashArray(checksum, key, value.MutableArray())
 	case bsontype.EmbeddedDocument:
 		return metricKeyHashDocument(checksum, key, value.MutableDocument())
-	case bsontype.Boolean:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Double:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Int32:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.Int64:
-		_, _ = checksum.Write([]byte(key))
-		return 1
-	case bsontype.DateTime:
-		_, _ = checksum.Write([]byte(key))
+	case bsontype.Boolean, bsontype.Double, bsontype.Int32, bsontype.Int64, bsontype.DateTime:
+		metricKeyHashWrite(checksum, key, t)
 		return 1
 	case bsontype.Timestamp:
-		_, _ = checksum.Write([]byte(key))
+		metricKeyHashWrite(checksum, key, t)
 		return 2
 	default:
 		return 0
 	}
 }
+
+// metricKeyHashWrite adds a metric to the checksum. Keys contain no NUL
+// bytes, so that the path and type of every metric are delimited.
+func metricKeyHashWrite(checksum hash.Hash, key string, t bsontype.Type) {
+	_, _ = fmt.Fprintf(checksum, "%d:%d:%s", t, len(key), key)
+}
-- 
2.43.0


From ca4b13730deaa384b41ebc36a2fb1db8b565bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:08 +0000
Subject: [PATCH 24/28] fix: streaming uncompressed ftdc collectors refused
 every sample after the first batch

---
 x/ftdc/collector_uncompressed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/collector_uncompressed.go b/x/ftdc/collector_uncompressed.go
index 5eb63b9..5170cd4 100644
--- a/x/ftdc/collector_uncompressed.go
+++ b/x/ftdc/collector_uncompressed.go
@@ -65,7 +65,7 @@ func NewUncompressedCollectorBSON(maxSamples int) Collector {
 // Close. You can also use the FlushCollector helper.
 func NewStreamingUncompressedCollectorJSON(maxSamples int, writer io.Writer) Collector {
 	return &streamingCollector{
-		maxSamples: maxSamples,
+		maxSamples: maxSamples - 1, // no reference document
 		output:     writer,
 		Collector:  NewUncompressedCollectorJSON(maxSamples),
 	}
@@ -88,7 +88,7 @@ func NewStreamingUncompressedCollectorJSON(maxSamples int, writer io.Writer) Col
 // Close. You can also use the FlushCollector helper.
 func NewStreamingUncompressedCollectorBSON(maxSamples int, writer io.Writer) Collector {
 	return &streamingCollector{
-		maxSamples: maxSamples,
+		maxSamples: maxSamples - 1, // no reference document
 		output:     writer,
 		Collector:  NewUncompressedCollectorBSON(maxSamples),
 	}
-- 
2.43.0


From 40ee6376924fcadfa109090ed1b0b361d74a8d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:08 +0000
Subject: [PATCH 25/28] fix: a schema change turned a streaming dynamic
 uncompressed ftdc collector into a compressed one

---
 x/ftdc/collector_streaming.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index e2f22a2..bd391a0 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -96,7 +96,7 @@ func NewStreamingDynamicCollector(max int, writer io.Writer) Collector {
 }
 
 func (c *streamingDynamicCollector) Reset() {
-	c.streamingCollector = newStreamingCollector(c.streamingCollector.maxSamples, c.output)
+	c.streamingCollector.Reset()
 	c.metricCount = 0
 	c.hash = ""
 }
-- 
2.43.0


From 05a70ef3445ed2cd3664a1173421fcdabdd3bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:08 +0000
Subject: [PATCH 26/28] fix: a batch ftdc collector of capacity zero could not
 be resolved

---
 x/ftdc/collector_batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/collector_batch.go b/x/ftdc/collector_batch.go
index 499fe14..834f31d 100644
--- a/x/ftdc/collector_batch.go
+++ b/x/ftdc/collector_batch.go
@@ -53,7 +53,7 @@ func (c *batchCollector) Add(in any) error {
 	}
 
 	last := c.chunks[len(c.chunks)-1]
-	if last.Info().SampleCount >= c.maxSamples {
+	if num := last.Info().SampleCount; num > 0 && num >= c.maxSamples {
 		last = &betterCollector{maxDeltas: c.maxSamples}
 		c.chunks = append(c.chunks, last)
 	}
-- 
2.43.0


From 1c00314fa8807f0837521a4dadcfb61f4dccc5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:44 +0000
Subject: [PATCH 27/28] fix: reading a performance event from a document lost
 its id and operation count

---
 x/ftdc/events/performance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 31cc8d4..3e30d78 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -91,6 +91,7 @@ func (p *Performance) UnmarshalDocument(doc *birch.Document) error {
 		case "ts":
 			p.Timestamp = elem.Value().Time()
 		case "id":
+			p.ID = elem.Value().Int64()
 		case "counters":
 			if err := p.Counters.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
 				return err
@@ -114,7 +115,7 @@ func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 		switch elem.Key() {
 		case "n":
 			p.Number = elem.Value().Int64()
-		case "opts":
+		case "ops":
 			p.Operations = elem.Value().Int64()
 		case "size":
 			p.Size = elem.Value().Int64()
-- 
2.43.0


From 12eddf2b6b6ac2de0cad131a6585bd390bcee9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:30 +0000
Subject: [PATCH 28/28] fix: jsonx escapes the keys of objects

---
 jsonx/marhsal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonx/marhsal.go b/jsonx/marhsal.go
index 041c984..cd62a55 100644
--- a/jsonx/marhsal.go
+++ b/jsonx/marhsal.go
@@ -16,7 +16,8 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 			out = append(out, ',')
 		}
 
-		out = append(out, []byte(fmt.Sprintf(`"%s":`, elem.key))...)
+		out = append(out, writeJSONString([]byte(elem.key))...)
+		out = append(out, ':')
 
 		val, err := elem.value.MarshalJSON()
 		if err != nil {
-- 
2.43.0

