From c0e453d034c8ff2b7cca4b1a3e3fac8581c3c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 01/60] fix: report an unreadable sequence length

---
 asn1/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index 4ff5426..b6aca48 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -153,6 +153,9 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 		return -1, a, errors.New("Sequence TAG mismatch at offset %d. Got %d instead of %d", offset, b, tag)
 	}
 	length, err := a.ReadLength()
+	if err != nil {
+		return -1, nil, errors.Update(err)
+	}
 	if length >= 0 {
 		newReader, err := a.NewReader(length)
 
-- 
2.43.0


From d189638e92130036e0b80515f9ee200713f273f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 02/60] fix: reject a boolean whose value byte is missing

---
 asn1/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index b6aca48..b76e13d 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -70,7 +70,7 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 		return false, errors.New("Invalid boolean length %d at offset %d", l, offset)
 	}
 	b, e := a.ReadByte()
-	if err != nil {
+	if e != nil {
 		return false, errors.Update(e)
 	}
 	if b == 0 {
-- 
2.43.0


From d6aabf116a7036907ed637cd5c4e888deddc48c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 03/60] fix: reject truncated and zero-length integers

---
 asn1/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index b76e13d..c4e376a 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -220,10 +220,16 @@ func (a *ASNReader) ReadInt() (int, errors.Error) {
 	if l > 4 {
 		return 0, errors.New("Integer length too big %d at offset %d", l, offset)
 	}
+	if l < 1 {
+		return 0, errors.New("Invalid integer length %d at offset %d", l, offset)
+	}
 
 	var b byte
 	val := int(0)
 	b, err = a.ReadByte()
+	if err != nil {
+		return 0, errors.Update(err)
+	}
 	if b&0x80 > 0 {
 		val = -1
 	}
-- 
2.43.0


From 6af5a65b53773054a6721393602cc1be1b7fba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 04/60] fix: reject truncated and zero-length 64 bit integers

---
 asn1/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index c4e376a..675ae22 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -250,6 +250,9 @@ func (a *ASNReader) readInt64(l int) (int64, errors.Error) {
 	if l > 8 {
 		return 0, errors.New("Integer length too big %d at offset %d.", l, a.TopOffset())
 	}
+	if l < 1 {
+		return 0, errors.New("Invalid integer length %d at offset %d.", l, a.TopOffset())
+	}
 	var b byte
 	val := int64(0)
 	b, err := a.ReadByte()
@@ -292,6 +295,9 @@ func (a *ASNReader) ReadInt64() (int64, errors.Error) {
 	}
 
 	val, err := a.readInt64(l)
+	if err != nil {
+		return 0, errors.Update(err)
+	}
 	return val, nil
 }
 
-- 
2.43.0


From 092d0cfbdad7518785f7cb9af25aafa7616b2280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 05/60] fix: check the tag of an object identifier

---
 asn1/decode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 675ae22..40f3053 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -82,10 +82,13 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 	var oid RelativeOID
 	offset := a.TopOffset()
-	tag, err := a.ReadByte()
+	t, err := a.ReadByte()
 	if err != nil {
 		return nil, errors.New("Failed to read OID tag at offset %d. %s", offset, err)
 	}
+	if t != tag {
+		return nil, errors.New("Incorrect OID tag %d at offset %d.", t, offset)
+	}
 	buf, err := a.readStringBuffer()
 	if err != nil {
 		return nil, errors.Update(err)
-- 
2.43.0


From b396da7a7f80dbc8eb40993c84bb2f82910bada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 06/60] fix: check a string length against the bytes left
 before allocating

---
 asn1/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index 40f3053..d98ae37 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -341,6 +341,9 @@ func (a *ASNReader) readStringBuffer() ([]byte, errors.Error) {
 	} else if l == 0 {
 		return nil, nil
 	}
+	if l > a.Len() {
+		return nil, errors.New("String length %d exceeds the %d bytes left at offset %d.", l, a.Len(), a.TopOffset())
+	}
 	b = make([]byte, l)
 	for i := 0; i < l; i++ {
 		b[i], err = a.ReadByte()
-- 
2.43.0


From 25e6b88a62df098d31b48d861476da8cf586b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 07/60] fix: decode an empty indefinite length real without
 panic

---
 asn1/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index d98ae37..b784913 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -395,7 +395,7 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 	}
 
 	buf, e := a.readStringBuffer()
-	if e != nil || buf == nil {
+	if e != nil || len(buf) == 0 {
 		return 0.0, errors.Update(e)
 	}
 
-- 
2.43.0


From 89fb68f867a08c06ba8bbdb14d10ae58d9c388c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 08/60] fix: decoding a real with a zero significand never
 ended

---
 asn1/decode.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index b784913..d8e439e 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -3,6 +3,7 @@ package asn1
 import (
 	"bytes"
 	"math"
+	"math/bits"
 
 	"github.com/dufourgilles/emberlib/errors"
 )
@@ -443,23 +444,25 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 
 	significand = significand << significandShift
 
-	mask := uint64(0x7FFFF00000000000)
-	for significand&mask == 0 {
-		significand <<= 8
+	if significand == 0 {
+		return 0.0, nil
 	}
 
-	mask = uint64(0x7FF0000000000000)
-	for significand&mask == 0 {
-		significand <<= 1
+	// move the leading bit to the implicit bit of the float representation
+	shift := bits.LeadingZeros64(significand) - 11
+	if shift >= 0 {
+		significand <<= uint(shift)
+	} else {
+		significand >>= uint(-shift)
 	}
 
 	significand = significand & uint64(0x000FFFFFFFFFFFFF)
 	longExponent := uint64(exponent)
-	bits := ((longExponent + 1023) << 52) | significand
+	val := ((longExponent + 1023) << 52) | significand
 	if sign < 0 {
-		bits |= uint64(0x8000000000000000)
+		val |= uint64(0x8000000000000000)
 	}
 
-	return math.Float64frombits(bits), nil
+	return math.Float64frombits(val), nil
 
 }
-- 
2.43.0


From fdca4fa33ffc6fa36ca4a86c475e856528e0f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 09/60] fix: length octets of contents over 65535 bytes

---
 asn1/encode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index c9426eb..3f9a1b6 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -259,7 +259,7 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
 	} else if len <= 0xffffff {
-		err = asn.data.WriteByte(0x82)
+		err = asn.data.WriteByte(0x83)
 		if err != nil {
 			return errors.NewError(err)
 		}
@@ -272,6 +272,8 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 			return errors.NewError(err)
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
+	} else {
+		return errors.New("Length %d too big.", len)
 	}
 	return errors.NewError(err)
 }
-- 
2.43.0


From 03794f3377204c3da46afe30112917ab0364f4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 10/60] fix: write the length octet of a null value

---
 asn1/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index 3f9a1b6..d1294e3 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -121,7 +121,10 @@ func (asn *ASNWriter) WriteInt64(i int64) errors.Error {
 
 func (asn *ASNWriter) WriteNull() errors.Error {
 	err := asn.data.WriteByte(EMBER_NULL)
-	return errors.NewError(err)
+	if err != nil {
+		return errors.NewError(err)
+	}
+	return asn.writeLength(0)
 }
 
 func (asn *ASNWriter) WriteEnum(i int) errors.Error {
-- 
2.43.0


From 15aab0df8469dacb6b25a1423775013eb858d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 11/60] fix: announce the exponent size of a real

---
 asn1/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index d1294e3..9f64879 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -221,7 +221,7 @@ func (asn *ASNWriter) WriteReal(r float64) errors.Error {
 	significandSize, significandVal := shortenLong(significand)
 
 	asn.writeLength(1 + expSize + significandSize)
-	preamble := uint8(0x80)
+	preamble := uint8(0x80) | uint8(expSize-1)
 	if r < 0 {
 		preamble |= 0x40
 	}
-- 
2.43.0


From f1c98f5a7e3e7abb54384ac37d242c187e1860c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 12/60] fix: decoding an element with an unknown context never
 ended

---
 embertree/elementFactory.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index db2e9f8..1d2528d 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -192,6 +192,10 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 			if err != nil {
 				return nil, errors.Update(err)
 			}
+		} else if end, _ := elementReader.CheckSequenceEnd(); end {
+			break
+		} else {
+			return nil, errors.New("Unknown element context 0x%x at offset %d.", b, elementReader.TopOffset())
 		}
 		end, err := elementReader.CheckSequenceEnd()
 		if end {
-- 
2.43.0


From e83f83c91b472e757de5dd6cadd017a6d5b8aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 13/60] fix: decoding parameter contents with an unknown
 context never ended

---
 embertree/parameter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embertree/parameter.go b/embertree/parameter.go
index 6216a53..7526c0a 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -212,6 +212,8 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown parameter content tag %d", peek)
 		}
 		end, err := reader.CheckSequenceEnd()
 		if end {
-- 
2.43.0


From 698ea54634861942ddf5bb6bb08f0e82b19239d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 14/60] fix: decoding matrix contents with an unknown context
 never ended

---
 embertree/matrix.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 8cc4036..9a057d7 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -385,6 +385,8 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown matrix content tag %d", peek)
 		}
 		end, err := matrixContentReader.CheckSequenceEnd()
 		if end {
-- 
2.43.0


From 051877728ad17e32a95b0039b848bf90fd95c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 15/60] fix: a truncated sequence header made decoding
 dereference a nil reader

---
 embertree/connection.go     | 6 ++++++
 embertree/elementFactory.go | 3 +++
 embertree/matrix.go         | 3 +++
 embertree/node.go           | 3 +++
 embertree/parameter.go      | 3 +++
 5 files changed, 18 insertions(+)

diff --git a/embertree/connection.go b/embertree/connection.go
index 506b13a..295a1da 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -149,6 +149,9 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 
 		_, ctxtReader, err := connectionReader.ReadSequenceStart(tag)
+		if err != nil {
+			return errors.Update(err)
+		}
 		switch tag {
 		case asn1.Context(1):
 			//Sources
@@ -189,6 +192,9 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		if end {
 			break
 		}
+		if err != nil {
+			return errors.Update(err)
+		}
 	}
 	return nil
 }
diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 1d2528d..76eb97d 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -87,6 +87,9 @@ func decodeContents(element *Element, ctxt uint8, reader *asn1.ASNReader) (inter
 
 func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors.Error {
 	_, ctxtReader, err := reader.ReadSequenceStart(ctxt)
+	if err != nil {
+		return errors.Update(err)
+	}
 	_, childrenReader, err := ctxtReader.ReadSequenceStart(asn1.Application(4))
 	if err != nil {
 		return errors.Update(err)
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 9a057d7..846bd45 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -376,6 +376,9 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if peek == templateReferenceContext {
 			_, templateReader, err := matrixContentReader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
diff --git a/embertree/node.go b/embertree/node.go
index 7479e63..b9dc6a9 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -182,6 +182,9 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		case asn1.Context(5):
 			{
 				_, templateReader, err := reader.ReadSequenceStart(peek)
+				if err != nil {
+					return errors.Update(err)
+				}
 				templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 				if err != nil {
 					return errors.Update(err)
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 7526c0a..52c4ebd 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -203,6 +203,9 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if index == 18 {
 			_, templateReader, err := reader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
-- 
2.43.0


From d23c5f0655e29ba45beaa6218e322ccd64e7a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 16/60] fix: reject a qualified element with an empty path

---
 embertree/elementFactory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 76eb97d..e83de5f 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -141,6 +141,9 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	}
 	if IsQualifiedTag(tag) {
 		path, err = ctxtReader.ReadOID(asn1.EMBER_RELATIVE_OID)
+		if err == nil && len(path) == 0 {
+			err = errors.New("Empty element path at offset %d.", ctxtReader.TopOffset())
+		}
 	} else {
 		number, err = ctxtReader.ReadInt()
 	}
-- 
2.43.0


From 47761bef4fb13abb90270261f9d91f1e5cb406a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 17/60] fix: decode qualified functions

---
 embertree/elementFactory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index e83de5f..b70112a 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -21,6 +21,8 @@ func getContentCreator(tag uint8) (ContentCreator, errors.Error) {
 		fallthrough
 	case MatrixApplication:
 		return NewDefaultMatrixContents, nil
+	case QualifiedFunctionApplication:
+		fallthrough
 	case FunctionApplication:
 		return NewFunctionContents, nil
 	default:
-- 
2.43.0


From ea26abcf78667b384d5e43dbd623c4d199489209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 18/60] fix: matrix properties shared context numbers

---
 embertree/matrix.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 846bd45..94cbe00 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -8,15 +8,15 @@ import (
 )
 
 const (
-	matrixTypeCtx               = 2
-	matrixModeCtx               = iota
-	targetCountCtx              = iota
-	sourceCounCtx               = iota
-	maximumTotalConnectsCtx     = iota
-	maximumConnectsPerTargetCtx = iota
-	parametersLocationCtx       = iota
-	gainParameterNumberCtx      = iota
-	matrixContentSize           = iota
+	matrixTypeCtx               = iota + 2
+	matrixModeCtx               = iota + 2
+	targetCountCtx              = iota + 2
+	sourceCounCtx               = iota + 2
+	maximumTotalConnectsCtx     = iota + 2
+	maximumConnectsPerTargetCtx = iota + 2
+	parametersLocationCtx       = iota + 2
+	gainParameterNumberCtx      = iota + 2
+	matrixContentSize           = iota + 2
 )
 
 type MatrixType int8
-- 
2.43.0


From 3efb7ba5e07bd4cb8a9ec3091b71475039ea9c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 19/60] fix: matrix labels with a definite length were lost

---
 embertree/matrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 94cbe00..81b479c 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -293,7 +293,7 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 	}
-	err = reader.ReadSequenceEnd()
+	err = labelReader.ReadSequenceEnd()
 	if err != nil {
 		return errors.Update(err)
 	}
@@ -364,7 +364,10 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 		} else if peek == labelContext {
-			c.DecodeLabels(matrixContentReader)
+			err = c.DecodeLabels(matrixContentReader)
+			if err != nil {
+				return errors.Update(err)
+			}
 		} else if index == 11 {
 			value, err := DecodeValue(matrixContentReader, index)
 			if err != nil {
-- 
2.43.0


From b16d9a129739c8cff3f2eceec830c3def7857c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 20/60] fix: decode object identifier values

---
 embertree/content_parameter.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 5308270..8ba7751 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -149,6 +149,13 @@ func (cp *ContentParameter) Set(val *ContentParameter) errors.Error {
 		}
 		cp.SetReal(b)
 		break
+	case ValueTypeOID:
+		b, err := val.GetRelativeOID()
+		if err != nil {
+			return err
+		}
+		cp.SetRelativeOID(b)
+		break
 	}
 	return nil
 }
@@ -380,6 +387,13 @@ func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.
 		}
 		contentParameter.SetString(s)
 		break
+	case asn1.EMBER_RELATIVE_OID:
+		oid, err := pcReader.ReadOID(asn1.EMBER_RELATIVE_OID)
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		contentParameter.SetRelativeOID(oid)
+		break
 	default:
 		return nil, errors.New("Unknown value type %d.", pcType)
 	}
-- 
2.43.0


From 9c9216cade558b3075fec250a9bf3b9c8d50a9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 21/60] fix: decoded invocation arguments were dropped

---
 embertree/invocation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/embertree/invocation.go b/embertree/invocation.go
index c7f1565..16e26c6 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -106,6 +106,7 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 					return errors.Update(err)
 				}
 			}
+			i.arguments = arguments
 			break
 		default:
 			return errors.New("Invovation decode error: Unknwon tag %d", peek)
-- 
2.43.0


From 936c8f7d5695092109b554cc3379cd90850e8aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:13 +0000
Subject: [PATCH 22/60] fix: function and invocation decoding ignored a
 truncated sequence end

---
 embertree/function.go   | 14 ++++++++++----
 embertree/invocation.go |  7 +++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/embertree/function.go b/embertree/function.go
index 8471fa7..c653053 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -189,11 +189,14 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 		end, err := tupleReader.CheckSequenceEnd()
-		if end || err != nil {
+		if end {
 			break
 		}
+		if err != nil {
+			return errors.Update(err)
+		}
 	}
-	return errors.Update(err)
+	return nil
 }
 
 func (tuple *TupleDescription) Encode(writer *asn1.ASNWriter) errors.Error {
@@ -289,11 +292,14 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.New("Unknown function content tag %d", peek)
 		}
 		end, err := reader.CheckSequenceEnd()
-		if end || err != nil {
+		if end {
 			break
 		}
+		if err != nil {
+			return errors.Update(err)
+		}
 	}
-	return errors.Update(err)
+	return nil
 }
 
 func (fc *FunctionContents) Encode(writer *asn1.ASNWriter) errors.Error {
diff --git a/embertree/invocation.go b/embertree/invocation.go
index 16e26c6..f80939c 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -116,9 +116,12 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 		end, err := invocationReader.CheckSequenceEnd()
-		if end || err != nil {
+		if end {
 			break
 		}
+		if err != nil {
+			return errors.Update(err)
+		}
 	}
-	return errors.Update(err)
+	return nil
 }
-- 
2.43.0


From 6277d3d9365033d6136384cd7e89a85628af7098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:14 +0000
Subject: [PATCH 23/60] fix: report a content field received twice with
 different types

---
 embertree/function.go |  7 +++++--
 embertree/node.go     | 13 ++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/embertree/function.go b/embertree/function.go
index c653053..24c3505 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -261,10 +261,10 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 		switch peek {
 		case asn1.Context(0):
-			fc.identifier.Set(value)
+			err = fc.identifier.Set(value)
 			break
 		case asn1.Context(1):
-			fc.description.Set(value)
+			err = fc.description.Set(value)
 			break
 		case asn1.Context(2):
 			arguments, err := decodeTupleDescriptions(ctxtReader)
@@ -291,6 +291,9 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 		default:
 			return errors.New("Unknown function content tag %d", peek)
 		}
+		if err != nil {
+			return errors.Update(err)
+		}
 		end, err := reader.CheckSequenceEnd()
 		if end {
 			break
diff --git a/embertree/node.go b/embertree/node.go
index b9dc6a9..a29a683 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -156,27 +156,27 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		switch peek {
 		case asn1.Context(0):
 			{
-				nc.identifier.Set(value)
+				err = nc.identifier.Set(value)
 				break
 			}
 		case asn1.Context(1):
 			{
-				nc.description.Set(value)
+				err = nc.description.Set(value)
 				break
 			}
 		case asn1.Context(2):
 			{
-				nc.isRoot.Set(value)
+				err = nc.isRoot.Set(value)
 				break
 			}
 		case asn1.Context(3):
 			{
-				nc.isOnline.Set(value)
+				err = nc.isOnline.Set(value)
 				break
 			}
 		case asn1.Context(4):
 			{
-				nc.schemaIdentifiers.Set(value)
+				err = nc.schemaIdentifiers.Set(value)
 				break
 			}
 		case asn1.Context(5):
@@ -196,6 +196,9 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 				}
 			}
 		}
+		if err != nil {
+			return errors.Update(err)
+		}
 		end, err := reader.CheckSequenceEnd()
 		if end {
 			break
-- 
2.43.0


From a3ec946e5827a8b3435f13290097d0d3200946cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 24/60] fix: report elements that could not be encoded

---
 embertree/root.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/embertree/root.go b/embertree/root.go
index 2cbd180..ab536ac 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -142,15 +142,33 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 }
 
 func (root *RootElement) Encode(writer *asn1.ASNWriter) errors.Error {
-	writer.StartSequence(asn1.Application(0))
+	err := writer.StartSequence(asn1.Application(0))
+	if err != nil {
+		return errors.Update(err)
+	}
 	if len(root.RootElementCollection) > 0 {
-		writer.StartSequence(asn1.Application(11))
+		err = writer.StartSequence(asn1.Application(11))
+		if err != nil {
+			return errors.Update(err)
+		}
 		for _, element := range root.RootElementCollection {
-			writer.StartSequence(asn1.Context(0))
-			element.Encode(writer)
-			writer.EndSequence()
+			err = writer.StartSequence(asn1.Context(0))
+			if err != nil {
+				return errors.Update(err)
+			}
+			err = element.Encode(writer)
+			if err != nil {
+				return errors.Update(err)
+			}
+			err = writer.EndSequence()
+			if err != nil {
+				return errors.Update(err)
+			}
+		}
+		err = writer.EndSequence()
+		if err != nil {
+			return errors.Update(err)
 		}
-		writer.EndSequence()
 	}
 	// if (this.isRoot() && this._result != null) {
 	// 	this._result.encode(ber);
-- 
2.43.0


From a959a9623e515609d0c82da662133f2e7822f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 25/60] fix: report a description that could not be encoded

---
 embertree/function.go | 5 ++---
 embertree/node.go     | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/embertree/function.go b/embertree/function.go
index 24c3505..bd1c316 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -318,7 +318,7 @@ func (fc *FunctionContents) Encode(writer *asn1.ASNWriter) errors.Error {
 	}
 
 	if fc.description.IsSet() {
-		fc.description.Encode(1, writer)
+		err = fc.description.Encode(1, writer)
 		if err != nil {
 			return errors.Update(err)
 		}
@@ -337,8 +337,7 @@ func (fc *FunctionContents) Encode(writer *asn1.ASNWriter) errors.Error {
 			return errors.Update(err)
 		}
 	}
-	writer.EndSequence()
-	return nil
+	return writer.EndSequence()
 }
 
 func (fc *FunctionContents) ToString() string {
diff --git a/embertree/node.go b/embertree/node.go
index a29a683..c704c6b 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -89,7 +89,7 @@ func (nc *NodeContents) Encode(writer *asn1.ASNWriter) errors.Error {
 	}
 
 	if nc.description.IsSet() {
-		nc.description.Encode(1, writer)
+		err = nc.description.Encode(1, writer)
 		if err != nil {
 			return errors.Update(err)
 		}
-- 
2.43.0


From 063c3dae7014f87df9aaeaf0eb962c5df50e8f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 26/60] fix: an empty sequence of indefinite length could not
 be decoded

---
 asn1/decode.go    | 10 ++++++++++
 embertree/root.go |  9 ++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index d8e439e..b5c1319 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -165,6 +165,16 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 
 		return length, newReader, err
 	}
+	if a.Len() > 1 {
+		// An empty sequence: nothing but its end marker.
+		end, err := a.CheckSequenceEnd()
+		if err != nil {
+			return -1, nil, errors.Update(err)
+		}
+		if end {
+			return 0, NewASNReader([]byte{}), nil
+		}
+	}
 	return length, a, nil
 }
 
diff --git a/embertree/root.go b/embertree/root.go
index ab536ac..3ff9d22 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -87,9 +87,12 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return err
 	}
-	peek, err := reader.Peek()
-	if err != nil {
-		return err
+	var peek uint8
+	if reader.Len() > 0 {
+		peek, err = reader.Peek()
+		if err != nil {
+			return err
+		}
 	}
 	if peek == asn1.Application(11) {
 		_, collectionReader, err := reader.ReadSequenceStart(peek)
-- 
2.43.0


From 2a51d577b82d28e21e6706524887db1a02958cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 27/60] fix: report elements that could not be applied to the
 tree

---
 embertree/root.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index 3ff9d22..6f37be7 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -82,6 +82,7 @@ func (root *RootElement) updateElement(element *Element) errors.Error {
 }
 
 func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
+	var updateErr errors.Error
 	modifiedElement := make(map[string]*Element)
 	_, reader, err := reader.ReadSequenceStart(asn1.Application(0))
 	if err != nil {
@@ -114,8 +115,14 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 				if err == nil && parent != nil {
 					modifiedElement[Path2String(parent.GetPath())] = parent
 				}
+				if err != nil && updateErr == nil {
+					updateErr = err
+				}
 			} else {
-				root.updateElement(element)
+				err := root.updateElement(element)
+				if err != nil && updateErr == nil {
+					updateErr = err
+				}
 			}
 			err = elementReader.ReadSequenceEnd()
 			if err != nil {
@@ -141,6 +148,9 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 			listener.Receive(mElement, nil)
 		}
 	}
+	if err == nil {
+		err = updateErr
+	}
 	return errors.Update(err)
 }
 
-- 
2.43.0


From 5a814d5486a5e2f94c2ec77f94d6b6cd05a56e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 28/60] fix: an element whose parent is unknown was attached to
 its grandparent

---
 embertree/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index 6f37be7..ee58051 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -48,7 +48,7 @@ func (root *RootElement) GetElementByPath(path asn1.RelativeOID) (*Element,*Elem
 		parent = element
 		element = element.Children[int(path[pos])]
 	}
-	if pos + 1 < len(path) {
+	if pos < len(path) {
 		return nil,nil
 	}
 	return parent,element
-- 
2.43.0


From 3127548b73bf0501d8af9f53c60224824458362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 29/60] fix: element paths overwrote each other and survived a
 move

---
 embertree/qualified_element.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 74b8379..f6e46cc 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -53,14 +53,16 @@ func IsQualifiedTag(tag uint8) bool {
 }
 
 func (element *Element) GetPath() asn1.RelativeOID {
-	if len(element.path) <= 0 {
-		var parentPath = asn1.RelativeOID{}
-		if element.parent != nil {
-			parentPath = element.parent.GetPath()
-		}
-		element.path = append(parentPath, int32(element.Number))
+	if element.isQualified {
+		return element.path
 	}
-	return element.path
+	var parentPath = asn1.RelativeOID{}
+	if element.parent != nil {
+		parentPath = element.parent.GetPath()
+	}
+	path := make(asn1.RelativeOID, 0, len(parentPath)+1)
+	path = append(path, parentPath...)
+	return append(path, int32(element.Number))
 }
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
-- 
2.43.0


From e4560b0f4e69b0cf3fc4162b602b8407d6dd6e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 30/60] fix: a matrix received without contents replaced the
 known contents

---
 embertree/elementFactory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index b70112a..20a4aca 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -162,6 +162,8 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	}
 	if tag == MatrixApplication {
 		element, _ = NewMatrix(number, OneToN, Linear)
+		// Only contents which are received may update those already known.
+		element.contents = nil
 	} else if tag == QualifiedMatrixApplication {
 		element = NewQualifiedMatrix(path, OneToN, Linear)
 	} else if IsQualifiedTag(tag) {
-- 
2.43.0


From 627c67738b5ff45106c58173da2a5203cfbaf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 31/60] fix: updating a matrix dropped its targets, sources and
 connections

---
 embertree/element.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/embertree/element.go b/embertree/element.go
index bab11d1..77c7ebb 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -124,6 +124,17 @@ func (element *Element) Update(newElement *Element) errors.Error {
 	if content != nil {
 		element.contents = content.(EmberContents)
 	}
+	if element.isMatrix && newElement.isMatrix {
+		if newElement.targets != nil {
+			element.targets = newElement.targets
+		}
+		if newElement.sources != nil {
+			element.sources = newElement.sources
+		}
+		for _, connection := range newElement.connections {
+			element.updateConnection(connection)
+		}
+	}
 	for number, newChild := range newElement.Children {
 		child := element.Children[number]
 		if child == nil {
@@ -139,6 +150,16 @@ func (element *Element) Update(newElement *Element) errors.Error {
 	return err
 }
 
+func (element *Element) updateConnection(newConnection *Connection) {
+	for i, connection := range element.connections {
+		if connection.Target == newConnection.Target {
+			element.connections[i] = newConnection
+			return
+		}
+	}
+	element.connections = append(element.connections, newConnection)
+}
+
 func (element *Element) GetContents() (EmberContents, errors.Error) {
 	return element.contents, nil
 }
-- 
2.43.0


From 79b4253a53ec2aaa8be51f9a7b4cfcb31efaa653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:55 +0000
Subject: [PATCH 32/60] fix: qualified requests carried the tag of an
 unqualified element

---
 embertree/qualified_element.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index f6e46cc..607c4fa 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -48,6 +48,21 @@ func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode
 	return q
 }
 
+// The qualified form of the tag of an element.
+func getQualifiedTag(tag uint8) uint8 {
+	switch tag {
+	case ParameterApplication:
+		return QualifiedParameterApplication
+	case NodeApplication:
+		return QualifiedNodeApplication
+	case MatrixApplication:
+		return QualifiedMatrixApplication
+	case FunctionApplication:
+		return QualifiedFunctionApplication
+	}
+	return tag
+}
+
 func IsQualifiedTag(tag uint8) bool {
 	return qualifiedTags[tag] == true
 }
@@ -67,7 +82,7 @@ func (element *Element) GetPath() asn1.RelativeOID {
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
 	path := element.GetPath()
-	dupElement := NewQualifiedElement(element.tag, path, nil)
+	dupElement := NewQualifiedElement(getQualifiedTag(element.tag), path, nil)
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	dupElement.AddChild(cmd)
 	root := NewRoot()
-- 
2.43.0


From 4e0646161dee13599ac99a8e57bb56426ce8c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 33/60] fix: apply updates received in qualified form to
 unqualified elements

---
 embertree/element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index 77c7ebb..ae0bb8c 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -117,7 +117,7 @@ func (element *Element) SetContents(contents interface{}) errors.Error {
 
 func (element *Element) Update(newElement *Element) errors.Error {
 	var err errors.Error
-	if element.Number != newElement.Number || element.tag != newElement.tag {
+	if element.Number != newElement.Number || getQualifiedTag(element.tag) != getQualifiedTag(newElement.tag) {
 		return errors.New("Attempt to update different element Number %d/%d Tag %d/%d", element.Number, newElement.Number, element.tag, newElement.tag)
 	}
 	content := newElement.GetContent()
-- 
2.43.0


From fe5e956b20ff3e0150a060923c8674c70bc25f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 34/60] fix: a request for a qualified element lost its path

---
 embertree/element.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index ae0bb8c..266ebc6 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -292,10 +292,13 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 	e := element
 	dupElement := NewElement(e.tag, e.Number, nil)
+	dupElement.isQualified = e.isQualified
+	dupElement.path = e.path
 	if cmd != nil {
 		dupElement.AddChild(cmd)
 	}
-	for {
+	// The path of a qualified element stands for all its parents.
+	for !e.isQualified {
 		parent, err := e.GetParent()
 		if err != nil {
 			return nil, err
@@ -304,6 +307,8 @@ func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 			break
 		}
 		dupParent := NewElement(parent.tag, parent.Number, nil)
+		dupParent.isQualified = parent.isQualified
+		dupParent.path = parent.path
 		dupParent.AddChild(dupElement)
 		e = parent
 		dupElement = dupParent
-- 
2.43.0


From b9f70507a27d8e8f80eafbefd24b60f3a6529ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 35/60] fix: creating a qualified matrix with an empty path
 dereferenced nil

---
 embertree/qualified_element.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 607c4fa..d5ff574 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -44,6 +44,9 @@ func NewQualifiedParameter(path asn1.RelativeOID) *Element {
 
 func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode) *Element {
 	q := NewQualifiedElement(QualifiedMatrixApplication, path, NewDefaultMatrixContents)
+	if q == nil {
+		return nil
+	}
 	q.isMatrix = true
 	return q
 }
-- 
2.43.0


From 2e4a9b212ce5df0ed42923650bc409a43df3fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 36/60] fix: a root made by NewRoot could neither decode nor be
 listened to

---
 embertree/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index ee58051..3ef9a61 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -23,7 +23,7 @@ func NewTree() *RootElement {
 }
 
 func NewRoot() *RootElement {
-	return &RootElement{listeners: nil, RootElementCollection: make(map[int]*Element)}
+	return NewTree()
 }
 
 func (root *RootElement) GetElementByNumber(number int) *Element {
-- 
2.43.0


From 3a75a54bc7a42ceb90c18bf4c0732def5759bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 37/60] fix: requesting the root directory without a listener
 registered nil

---
 embertree/root.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index 3ef9a61..96a7727 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -200,7 +200,9 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 	root := NewRoot()
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	root.AddElement(cmd)
-	r.AddListener(listener)
+	if listener != nil {
+		r.AddListener(listener)
+	}
 	return root, nil
 }
 
-- 
2.43.0


From ea2cf1cac18842aa8a8c44f93363a2503eeb1a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 38/60] fix: field flag numbers of commands

---
 embertree/command.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/embertree/command.go b/embertree/command.go
index e6631a2..f783ba0 100755
--- a/embertree/command.go
+++ b/embertree/command.go
@@ -17,13 +17,13 @@ type FieldFlags int
 
 const (
 	SparseFieldFlags      FieldFlags = -2
-	ALLFieldFlags         FieldFlags  = iota
-	DefaultFieldFlags     FieldFlags  = iota
-	IdentifierFieldFlags  FieldFlags  = iota
-	DescriptionFieldFlags FieldFlags  = iota
-	TreeFieldFlags        FieldFlags  = iota
-	ValueFieldFlags       FieldFlags  = iota
-	ConnectionsFieldFlags FieldFlags  = iota
+	ALLFieldFlags         FieldFlags  = iota - 2
+	DefaultFieldFlags     FieldFlags  = iota - 2
+	IdentifierFieldFlags  FieldFlags  = iota - 2
+	DescriptionFieldFlags FieldFlags  = iota - 2
+	TreeFieldFlags        FieldFlags  = iota - 2
+	ValueFieldFlags       FieldFlags  = iota - 2
+	ConnectionsFieldFlags FieldFlags  = iota - 2
 )
 
 type CommandContents struct {
-- 
2.43.0


From 1bb33a570d06df8ae5f8683b931113f4bb2807ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 39/60] fix: decoding deeply nested elements exhausted the
 stack

---
 embertree/elementFactory.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 20a4aca..0c9c69e 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -87,7 +87,10 @@ func decodeContents(element *Element, ctxt uint8, reader *asn1.ASNReader) (inter
 	return contents, err
 }
 
-func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors.Error {
+// Elements nested deeper than this are refused.
+const maxElementDepth = 256
+
+func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader, depth int) errors.Error {
 	_, ctxtReader, err := reader.ReadSequenceStart(ctxt)
 	if err != nil {
 		return errors.Update(err)
@@ -102,7 +105,7 @@ func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors
 			return errors.Update(err)
 		}
 		element.logger.Debug("Decoding Element.\n")
-		child, err := DecodeElement(childReader)
+		child, err := decodeElement(childReader, depth+1)
 		if err != nil {
 			return errors.Update(err)
 		}
@@ -123,6 +126,13 @@ func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors
 }
 
 func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
+	return decodeElement(reader, 0)
+}
+
+func decodeElement(reader *asn1.ASNReader, depth int) (*Element, errors.Error) {
+	if depth > maxElementDepth {
+		return nil, errors.New("Elements nested too deep at offset %d.", reader.TopOffset())
+	}
 	var (
 		element  *Element
 		path     asn1.RelativeOID
@@ -183,7 +193,7 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 			}
 			element.SetContents(contents)
 		} else if b == asn1.Context(2) {
-			err = decodeChildren(b, element, elementReader)
+			err = decodeChildren(b, element, elementReader, depth)
 			if err != nil {
 				return nil, errors.Update(err)
 			}
-- 
2.43.0


From dd85d87927d0fda87544fef290d3678be15ad436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 40/60] fix: every log method compared with the error level

---
 logger/logger.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/logger/logger.go b/logger/logger.go
index f86e1e6..096e9dc 100755
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -10,7 +10,7 @@ import (
 type LogLevel uint8
 const (
 
-	ErrorLevel LogLevel = 3
+	ErrorLevel LogLevel = iota
 	WarnLevel LogLevel = iota
 	InfoLevel LogLevel = iota
 	DebugLevel LogLevel = iota
@@ -49,25 +49,25 @@ func (logger *ConsoleLogger)Error(e errors.Error) {
 }
 
 func (logger *ConsoleLogger)Warn(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= WarnLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Info(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= InfoLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Debug(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= DebugLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Debugln(a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= DebugLevel {
 		fmt.Println(a...)
 	}
 }
-- 
2.43.0


From b3cf9e1d4c67c13ccd92a945ed126c968f492628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 41/60] fix: text of matrix and parameter contents

---
 embertree/matrix.go    | 10 +++++-----
 embertree/parameter.go | 26 +++++++++++++-------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 81b479c..9ab7420 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -419,17 +419,17 @@ func (c *MatrixContent) ToString() string {
 	}
 	t,err := c.GetType()
 	if t == OneToN {
-		str = fmt.Sprintf(("%s  type: OneToN"))
+		str = fmt.Sprintf("%s  type: OneToN\n", str)
 	} else if t ==  NToN {
-		str = fmt.Sprintf(("%s  type: NToN"))
+		str = fmt.Sprintf("%s  type: NToN\n", str)
 	} else {
-		str = fmt.Sprintf(("%s  type: OneToOne"))
+		str = fmt.Sprintf("%s  type: OneToOne\n", str)
 	}
 	m,err := c.GetMode()
 	if m == Linear {
-		str = fmt.Sprintf(("%s  mode: Linear"))
+		str = fmt.Sprintf("%s  mode: Linear\n", str)
 	} else {
-		str = fmt.Sprintf(("%s  mode: Non-Linear"))
+		str = fmt.Sprintf("%s  mode: Non-Linear\n", str)
 	}
 	return fmt.Sprintf("{\n%s}\n", str)
 }
\ No newline at end of file
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 52c4ebd..b5ba2d1 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -241,11 +241,11 @@ func (contents *ParameterContents) ToString() string {
 	}
 	valObject := contents.GetValueObject()
 	if valObject != nil && valObject.isSet {
-		str = fmt.Sprintf("%  svalue: %s\n",str, valObject.ToString())
+		str = fmt.Sprintf("%s  value: %s\n",str, valObject.ToString())
 	}
 	valObject = contents.GetMinimumObject()
 	if valObject != nil && valObject.isSet {
-		str = fmt.Sprintf("%  sminimum: %s\n",str, valObject.ToString())
+		str = fmt.Sprintf("%s  minimum: %s\n",str, valObject.ToString())
 	}
 	valObject = contents.GetMaximumObject()
 	if valObject != nil && valObject.isSet {
@@ -256,27 +256,27 @@ func (contents *ParameterContents) ToString() string {
 		str = fmt.Sprintf("%s  default: %s\n",str, valObject.ToString())
 	}
 	valStr,err = contents.GetAccess()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  access: %s\n",str,valStr)
 	}
 	valStr,err = contents.GetFormat()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  format: %s\n",str,valStr)
 	}
 	valStr,err = contents.GetEnumeration()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  enumeration: %s\n",str,valStr)
 	}
 	valInt,err := contents.GetFactor()
-	if err != nil {
-		str = fmt.Sprintf("%s  factor: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  factor: %d\n",str,valInt)
 	}
 	valInt,err = contents.GetStep()
-	if err != nil {
-		str = fmt.Sprintf("%s  step: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  step: %d\n",str,valInt)
 	}
 	valBool,err := contents.GetOnline()
-	if err != nil {
+	if err == nil {
 		if valBool {
 			str = fmt.Sprintf("%s  isonline: true\n",str)
 		} else {
@@ -284,12 +284,12 @@ func (contents *ParameterContents) ToString() string {
 		}
 	}
 	valStr,err = contents.GetType()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  type: %s\n",str,valStr)
 	}
 	valInt,err = contents.GetStreamIdentifier()
-	if err != nil {
-		str = fmt.Sprintf("%s  streamIdentifier: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  streamIdentifier: %d\n",str,valInt)
 	}
 	return fmt.Sprintf("{\n%s}\n", str)
 }
\ No newline at end of file
-- 
2.43.0


From 08c4dd2b984d2c3ebc718e72ea4d40430ef6e9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 42/60] fix: reading the bytes of a frame emptied it

---
 socket/frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket/frame.go b/socket/frame.go
index b9309e7..0162675 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -199,7 +199,7 @@ func (s *S101FrameList)GetBytesAt(i int) ([]byte, errors.Error) {
 		return nil, errors.New("out of bound")
 	}
 	res := make([]byte, s.frames[i].Len())
-	s.frames[i].Read(res)
+	copy(res, s.frames[i].Bytes())
 	return res, nil
 }
 
-- 
2.43.0


From 72405d969d7fe0b54539c72f1ffc4b647da5e1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 43/60] fix: a frame after a truncated one was lost

---
 socket/frame.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/socket/frame.go b/socket/frame.go
index 0162675..d929e74 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -315,14 +315,14 @@ func (decoder *S101Decoder)SetLogger(logger Logger) {
 func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	for i := 0; i < bufLen; i++ {
 		b := buf[i];
-		if (decoder.escaped) {
+		if b == S101_BOF {
+			decoder.inbuf.Reset();
+			decoder.escaped = false;
+		} else if (decoder.escaped) {
 			decoder.inbuf.WriteByte(b ^ S101_XOR);
 			decoder.escaped = false;
 		} else if b == S101_CE {
 			decoder.escaped = true;
-		} else if b == S101_BOF {
-			decoder.inbuf.Reset();
-			decoder.escaped = false;
 		} else if b == S101_EOF {
 			decoder.logger.Debug("End of Frame - frame size %d.\n", decoder.inbuf.Len())
 			decoder.logger.Debugln(decoder.inbuf)
-- 
2.43.0


From 08e0d01ce6386233d11854dd4f61b3a314a21cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 44/60] fix: report messages that could not be processed, and
 only those

---
 socket/client.go | 4 +---
 socket/frame.go  | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 6529d4d..1609c8c 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -97,9 +97,7 @@ func (s *S101Client)emberPacketHandler(packet []byte) errors.Error {
 	// This should be a valid EmberRoot.
 	s.logger.Debug("Ember Frame - start decoding.\n")
 	s.logger.Debugln(packet)
-	err := s.tree.Decode(asn1.NewASNReader(packet))
-	s.errorHandler(err)
-	return err
+	return s.tree.Decode(asn1.NewASNReader(packet))
 }
 
 func (s *S101Client)errorHandler(err errors.Error) {
diff --git a/socket/frame.go b/socket/frame.go
index d929e74..7f9bc4d 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -410,7 +410,7 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 		emberPacket := make([]byte, decoder.emberbuf.Len())
 		decoder.emberbuf.Read(emberPacket)
 		decoder.emberbuf.Reset()
-		decoder.emberPacketHandler(emberPacket)
+		return decoder.emberPacketHandler(emberPacket)
 	}
 	decoder.logger.Debug("Ember Frame parsing complete.\n")
 	return nil
-- 
2.43.0


From e0fc88bb513a3d6e16d108fb3830cd7a15107306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 45/60] fix: keep-alive requests were never answered

---
 socket/client.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 1609c8c..2ccb038 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -81,10 +81,8 @@ type S101Client struct {
 }
 
 func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
-	// This should go at the head of the queue
 	s.logger.Debug("KAL Request Received.\n")
-	s.outQ.queue.PushFront(GetKeepAliveResponse())
-	return nil
+	return s.send(GetKeepAliveResponse().Bytes())
 }
 
 func (s *S101Client)keepAliveResponseHandler(kal []byte) errors.Error {
@@ -156,6 +154,20 @@ func (s *S101Client)IsConnected() bool {
 	return s.conn != nil
 }
 
+func (s *S101Client)send(message []byte) errors.Error {
+	if !s.IsConnected() {
+		return errors.New("Not connected")
+	}
+	res, err := s.conn.Write(message)
+	if err != nil {
+		s.stats.TxErrors++
+		return errors.NewError(err)
+	}
+	s.stats.TxPackets++
+	s.stats.TxBytes += uint64(res)
+	return nil
+}
+
 func (s *S101Client)sendBER(data []byte) errors.Error {
 	if !s.IsConnected() {
 		return errors.New("Not connected")
@@ -167,14 +179,10 @@ func (s *S101Client)sendBER(data []byte) errors.Error {
 			s.stats.TxErrors++
 			return errors.Update(err)
 		}
-		var res int
-		res, e := s.conn.Write(message)
-		if e != nil {
-			s.stats.TxErrors++
-			return errors.NewError(e)
+		err = s.send(message)
+		if err != nil {
+			return errors.Update(err)
 		}
-		s.stats.TxPackets++
-		s.stats.TxBytes += uint64(res)
 	}
 	return nil
 }
-- 
2.43.0


From 7cb4f23a87a59f0aca700aa9ed0d2e666a91239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 46/60] fix: the connection state was shared without
 synchronisation and never noticed the peer closing

---
 socket/client.go | 58 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 2ccb038..d5a4c22 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -4,6 +4,7 @@ import (
 	"container/list"
 	"fmt"
 	"net"
+	"sync"
 	"time"
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -67,6 +68,7 @@ type _TimerCallbacks struct {
 type S101Client struct {
 	stats S101SocketStats
 	conn  net.Conn
+	connMutex sync.Mutex
 	raddr string
 	outQ  *packetQueue
 	decoder *S101Decoder
@@ -128,21 +130,29 @@ func (s *S101Client)SetLogger(logger Logger) {
 }
 
 func (s *S101Client)Connect(address string, port uint16) errors.Error {
-	var err error
 	if s.IsConnected() {
 		return errors.New("Client already connected to %s:%d", address, port)
 	}
 	s.raddr = fmt.Sprintf("%s:%d", address, port)
-	s.conn, err = net.Dial("tcp", s.raddr)
+	conn, err := net.Dial("tcp", s.raddr)
 	if err != nil {
 		return errors.NewError(err)
 	}
-	go s.iomanager()
+	s.connMutex.Lock()
+	defer s.connMutex.Unlock()
+	if s.conn != nil {
+		conn.Close()
+		return errors.New("Client already connected to %s:%d", address, port)
+	}
+	s.conn = conn
+	go s.iomanager(conn)
 	return nil
 }
 
 func (s *S101Client)Disconnect() errors.Error {
-	if !s.IsConnected() {
+	s.connMutex.Lock()
+	defer s.connMutex.Unlock()
+	if s.conn == nil {
 		return errors.New("Client not connected.")
 	}
 	err := s.conn.Close()
@@ -150,15 +160,32 @@ func (s *S101Client)Disconnect() errors.Error {
 	return errors.NewError(err)
 }
 
+func (s *S101Client)getConn() net.Conn {
+	s.connMutex.Lock()
+	defer s.connMutex.Unlock()
+	return s.conn
+}
+
+// Forget a connection lost by the peer.
+func (s *S101Client)dropConn(conn net.Conn) {
+	conn.Close()
+	s.connMutex.Lock()
+	defer s.connMutex.Unlock()
+	if s.conn == conn {
+		s.conn = nil
+	}
+}
+
 func (s *S101Client)IsConnected() bool {
-	return s.conn != nil
+	return s.getConn() != nil
 }
 
 func (s *S101Client)send(message []byte) errors.Error {
-	if !s.IsConnected() {
+	conn := s.getConn()
+	if conn == nil {
 		return errors.New("Not connected")
 	}
-	res, err := s.conn.Write(message)
+	res, err := conn.Write(message)
 	if err != nil {
 		s.stats.TxErrors++
 		return errors.NewError(err)
@@ -322,10 +349,10 @@ func (s *S101Client)processBuffer(l int, buffer []byte) {
 	s.decoder.DecodeBuffer(l, buffer)
 }
 
-func (s *S101Client)iomanager() {
+func (s *S101Client)iomanager(conn net.Conn) {
 	s.logger.Debug("iomanager started.\n")
 	buffer := make([]byte, maxBufferSize)
-	for s.IsConnected() {
+	for s.getConn() == conn {
 		// Send messages present in our Q - but no more than max
 		messagesToSend := s.outQ.queue.Len()
 		if messagesToSend > 3 {
@@ -348,17 +375,22 @@ func (s *S101Client)iomanager() {
 		}
 
 		// collect inbound messages during next 100ms
-		deadline := time.Now().Add(100)
-		s.conn.SetReadDeadline(deadline)
+		deadline := time.Now().Add(100 * time.Millisecond)
+		conn.SetReadDeadline(deadline)
 		for {
-			len,_ := s.conn.Read(buffer)
+			len,err := conn.Read(buffer)
 			if len > 0 {
 				s.logger.Debug("iomanager received a message of %d bytes.\n", len)
 				s.stats.RxBytes += uint64(len)
 				s.stats.RxPackets++
 				//process the buffer
 				s.processBuffer(len, buffer)
-			} else {
+			}
+			if netErr, ok := err.(net.Error); ok && netErr.Timeout() {
+				break
+			}
+			if err != nil {
+				s.dropConn(conn)
 				break
 			}
 		}
-- 
2.43.0


From bb7b6eb5c721d9b73b9b354ec551024268a748d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 47/60] fix: the request queue was shared without
 synchronisation

---
 socket/client.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index d5a4c22..dffe10a 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -16,6 +16,7 @@ const maxQueueSize = 256
 const maxBufferSize = 65536
 
 type packetQueue struct {
+	mutex sync.Mutex
 	queue *list.List
 }
 
@@ -32,15 +33,19 @@ func newPacketQueue() *packetQueue {
 }
 
 func (p *packetQueue) size() int {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	return p.queue.Len()
 }
 
 func (p *packetQueue) isEmpty() bool {
-	return p.queue.Len() == 0
+	return p.size() == 0
 }
 
 func (p *packetQueue) add(msg *embertree.RootElement) errors.Error{
-	if p.size() > maxQueueSize {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
+	if p.queue.Len() > maxQueueSize {
 		return errors.New("Queue size limit. Drop message.")
 	}
 	p.queue.PushBack(msg)
@@ -48,6 +53,8 @@ func (p *packetQueue) add(msg *embertree.RootElement) errors.Error{
 }
 
 func (p *packetQueue) getNext() (*embertree.RootElement, errors.Error) {
+	p.mutex.Lock()
+	defer p.mutex.Unlock()
 	if p.queue.Len() > 0 {
 		qElement :=  p.queue.Front()
 		p.queue.Remove(qElement)
@@ -354,7 +361,7 @@ func (s *S101Client)iomanager(conn net.Conn) {
 	buffer := make([]byte, maxBufferSize)
 	for s.getConn() == conn {
 		// Send messages present in our Q - but no more than max
-		messagesToSend := s.outQ.queue.Len()
+		messagesToSend := s.outQ.size()
 		if messagesToSend > 3 {
 			messagesToSend = 3;
 		}
-- 
2.43.0


From dec965ca81ce60adfca780b39edab86c7a8993e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 48/60] fix: listeners were shared without synchronisation

---
 embertree/element.go | 19 ++++++++++++++++++-
 embertree/root.go    | 23 +++++++++++++++++++++--
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 266ebc6..ecefb69 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"sync"
 
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -43,6 +44,7 @@ type Element struct {
 	contents        EmberContents
 	contentsCreator ContentCreator
 	listeners       map[Listener]Listener
+	listenersMutex  sync.Mutex
 	logger Logger
 	// for qualified element
 	isQualified bool
@@ -83,10 +85,14 @@ func (element *Element) CreateContent() interface{} {
 }
 
 func (element *Element) AddListener(listener Listener) {
+	element.listenersMutex.Lock()
+	defer element.listenersMutex.Unlock()
 	element.listeners[listener] = listener
 }
 
 func (element *Element) RemoveListener(listener Listener) {
+	element.listenersMutex.Lock()
+	defer element.listenersMutex.Unlock()
 	delete(element.listeners, listener)
 }
 
@@ -104,8 +110,19 @@ func (element *Element) AddChild(child *Element) errors.Error {
 	return nil
 }
 
-func (element *Element) updateListeners(err errors.Error) {
+// A copy, as listeners may be added and removed while the others are called.
+func (element *Element) getListeners() []Listener {
+	element.listenersMutex.Lock()
+	defer element.listenersMutex.Unlock()
+	listeners := make([]Listener, 0, len(element.listeners))
 	for _, listener := range element.listeners {
+		listeners = append(listeners, listener)
+	}
+	return listeners
+}
+
+func (element *Element) updateListeners(err errors.Error) {
+	for _, listener := range element.getListeners() {
 		listener.Receive(element, err)
 	}
 }
diff --git a/embertree/root.go b/embertree/root.go
index 96a7727..a380978 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/dufourgilles/emberlib/errors"
 	. "github.com/dufourgilles/emberlib/logger"
@@ -12,6 +13,7 @@ type RootElement struct {
 	RootElementCollection map[int]*Element
 	logger Logger
 	listeners             map[Listener]Listener
+	listenersMutex        sync.Mutex
 }
 
 func NewTree() *RootElement {
@@ -138,12 +140,12 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 	}
 	err = reader.ReadSequenceEnd()
-	for _, listener := range(root.listeners) {
+	for _, listener := range(root.getListeners()) {
 		root.logger.Debug("Updating root listener.\n")
 		listener.Receive(root, nil)
 	}
 	for path,mElement := range(modifiedElement) {
-		for _,listener := range(mElement.listeners) {
+		for _,listener := range(mElement.getListeners()) {
 			root.logger.Debug("Updating Element %s listener.\n", path)
 			listener.Receive(mElement, nil)
 		}
@@ -208,18 +210,35 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 
 func (r *RootElement) AddListener(listener Listener) {
 	r.logger.Debug("Adding Root Listener.\n")
+	r.listenersMutex.Lock()
+	defer r.listenersMutex.Unlock()
 	r.listeners[listener] = listener
 }
 
 func (r *RootElement) RemoveListener(listener Listener) {
 	r.logger.Debug("Removing Root Listener.\n")
+	r.listenersMutex.Lock()
+	defer r.listenersMutex.Unlock()
 	delete(r.listeners, listener)
 }
 
 func (r *RootElement) HasListner(listener Listener) bool {
+	r.listenersMutex.Lock()
+	defer r.listenersMutex.Unlock()
 	return r.listeners[listener] != nil
 }
 
+// A copy, as listeners may be added and removed while the others are called.
+func (r *RootElement) getListeners() []Listener {
+	r.listenersMutex.Lock()
+	defer r.listenersMutex.Unlock()
+	listeners := make([]Listener, 0, len(r.listeners))
+	for _, listener := range r.listeners {
+		listeners = append(listeners, listener)
+	}
+	return listeners
+}
+
 func (root *RootElement) ToString() string {
 	str := ""
 	for _,element := range(root.RootElementCollection) {
-- 
2.43.0


From dba16bf3a38f47e5e99abed0fee1e32631d1574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 49/60] fix: request timers leaked, removed the wrong listener
 and fired after the response

---
 socket/client.go | 75 +++++++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index dffe10a..289d87c 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -67,8 +67,12 @@ func (p *packetQueue) getNext() (*embertree.RootElement, errors.Error) {
 }
 
 type _TimerCallbacks struct {
+	mutex sync.Mutex
 	timer *time.Timer
+	done bool
+	node embertree.ListeningNode
 	listener embertree.Listener
+	timeoutError errors.Error
 	client *S101Client
 }
 
@@ -81,12 +85,10 @@ type S101Client struct {
 	decoder *S101Decoder
 	msTimeout int
 	logger Logger
-	timerCallbacks map[embertree.ListeningNode]*_TimerCallbacks
 	getTreeCallback embertree.Listener
 	tree *embertree.RootElement
 	incomingDataChan chan channelMessage
 	outgoingDataChan chan channelMessage
-	freeTimerCallback embertree.Listener
 }
 
 func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
@@ -116,7 +118,6 @@ func NewS101Client() *S101Client {
 	client.decoder = NewS101Decoder(client.keepAliveReqHandler,client.keepAliveResponseHandler,client.emberPacketHandler, client.errorHandler )
 	client.stats.Reset()
 	client.logger = NewNullLogger()
-	client.timerCallbacks = make(map[embertree.ListeningNode]*_TimerCallbacks)
 	client.outQ = newPacketQueue()
 	client.tree = embertree.NewTree()
 	client.incomingDataChan = make(chan channelMessage, 100)
@@ -236,46 +237,53 @@ func (s *S101Client)sendBERNode(node *embertree.RootElement) errors.Error {
 }
 
 
+// The node was updated. The request is complete.
 func (t *_TimerCallbacks)Receive(node interface{}, err errors.Error) {
-	treeNode := node.(embertree.ListeningNode)
-	timerCB := t.client.timerCallbacks[treeNode]
-	if timerCB == nil {
-		return
-	}
 	t.client.logger.Debug("Timer Stopped.\n")
-	timerCB.timer.Stop()
-	delete(t.client.timerCallbacks, treeNode)
+	t.stop()
+}
+
+// True the first time only.
+func (t *_TimerCallbacks)stop() bool {
+	t.mutex.Lock()
+	done := t.done
+	t.done = true
+	t.timer.Stop()
+	t.mutex.Unlock()
 	// Remove myself from node
-	treeNode.RemoveListener(t)
+	t.node.RemoveListener(t)
+	return !done
 }
 
-func (s *S101Client)runTimer(node *embertree.Element, callback embertree.Listener, timeoutError errors.Error) {
-	var treeNode embertree.ListeningNode
-	if node == nil {
-		treeNode = s.tree
-	} else {
-		treeNode = node
+func (t *_TimerCallbacks)timeout() {
+	t.client.logger.Debug("Timer Kicked.\n")
+	if t.stop() {
+		t.listener.Receive(nil, t.timeoutError)
 	}
+}
+
+func (s *S101Client)startTimer(treeNode embertree.ListeningNode, callback embertree.Listener, timeoutError errors.Error) *_TimerCallbacks {
 	s.logger.Debug("Timer running.\n")
-	freeTimerCallback := &_TimerCallbacks{client: s, timer: time.NewTimer(time.Duration(int64(s.msTimeout)) * time.Millisecond)}
-	treeNode.AddListener(freeTimerCallback)
-	s.timerCallbacks[treeNode] = freeTimerCallback
-	<-s.timerCallbacks[treeNode].timer.C
-	s.logger.Debug("Timer Kicked.\n")
-	callback.Receive(nil, timeoutError)
-	s.logger.Debug("Cleaning Timer callback.\n")
-	delete(s.timerCallbacks, treeNode)
-	treeNode.RemoveListener(s.freeTimerCallback)
+	timerCB := &_TimerCallbacks{client: s, node: treeNode, listener: callback, timeoutError: timeoutError}
+	timerCB.mutex.Lock()
+	defer timerCB.mutex.Unlock()
+	timerCB.timer = time.AfterFunc(time.Duration(int64(s.msTimeout)) * time.Millisecond, timerCB.timeout)
+	treeNode.AddListener(timerCB)
+	return timerCB
 }
 
 func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Listener) errors.Error {
 	var msg *embertree.RootElement
 	var err errors.Error
+	var treeNode embertree.ListeningNode
+	var timerCB *_TimerCallbacks
 	timeoutError := errors.New("GetDirectory timed out.")	
 	if node == nil {
+		treeNode = s.tree
 		s.logger.Debug("Send GetDirectory for root.\n")
 		msg,err = s.tree.GetDirectoryMsg(callback)		
 	} else {
+		treeNode = node
 		s.logger.Debug("Send GetDirectory for %s.\n", embertree.Path2String(node.GetPath()))
 		msg = node.GetQualifiedDirectoryMsg(callback)
 	}
@@ -283,11 +291,20 @@ func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Lis
 		s.logger.Debug("GetDirectory.\n",err)
 		return errors.Update(err)
 	}
-	if s.msTimeout > 0 {
-		go s.runTimer(node, callback, timeoutError)
+	if s.msTimeout > 0 && callback != nil {
+		timerCB = s.startTimer(treeNode, callback, timeoutError)
 	}
 	
-	return s.outQ.add(msg)
+	err = s.outQ.add(msg)
+	if err != nil {
+		if timerCB != nil {
+			timerCB.stop()
+		}
+		if callback != nil {
+			treeNode.RemoveListener(callback)
+		}
+	}
+	return err
 }
 
 type _ElementListeners struct {
-- 
2.43.0


From 69ba5db0c14ed0bfe9110cd6600aba7d429a1df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:52 +0000
Subject: [PATCH 50/60] fix: a tree request could complete several times or
 never

---
 socket/client.go | 52 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 289d87c..a27cc43 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -310,18 +310,22 @@ func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Lis
 type _ElementListeners struct {
 	client *S101Client
 	rootListener *_RoottListeners
+	element *embertree.Element
+	once sync.Once
 }
 
 // getElementCallback
 func (l *_ElementListeners)Receive(node interface{}, err errors.Error) {
+	l.once.Do(func() { l.complete(node, err) })
+}
+
+func (l *_ElementListeners)complete(node interface{}, err errors.Error) {
 	l.client.logger.Debug("Element Callback.\n")	
+	l.element.RemoveListener(l)
 	if err == nil && node != nil {
 		element := node.(*embertree.Element)
-		element.RemoveListener(l)
 		for _,child := range(element.Children) {
-			l.rootListener.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: l.client, rootListener: l.rootListener}
-			go l.client.GetDirectory(child, elementCallback)
+			l.rootListener.getDirectory(child)
 		}
 	}
 	l.rootListener.DecPendingGetDir(node,err)
@@ -329,38 +333,58 @@ func (l *_ElementListeners)Receive(node interface{}, err errors.Error) {
 
 type _RoottListeners struct {
 	client *S101Client
+	mutex sync.Mutex
 	pendingGetDirectory uint
 	listener embertree.Listener
+	once sync.Once
 }
 
 func (r *_RoottListeners)IncPendingGetDir() {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.pendingGetDirectory++
 }
 
 func (r *_RoottListeners)DecPendingGetDir(node interface{}, err errors.Error) {
+	r.mutex.Lock()
 	r.pendingGetDirectory--
-	if r.pendingGetDirectory == 0 {
+	completed := r.pendingGetDirectory == 0
+	r.mutex.Unlock()
+	if completed {
 		r.listener.Receive(r.client.tree, err)
 	}
 }
 
+// Request the directory of an element. Its response or error completes the request.
+func (r *_RoottListeners)getDirectory(element *embertree.Element) {
+	r.IncPendingGetDir()
+	elementCallback := &_ElementListeners{client: r.client, rootListener: r, element: element}
+	go func() {
+		err := r.client.GetDirectory(element, elementCallback)
+		if err != nil {
+			elementCallback.Receive(nil, err)
+		}
+	}()
+}
+
 func (r *_RoottListeners)Receive(node interface{}, err errors.Error) {	
+	r.once.Do(func() { r.complete(node, err) })
+}
+
+func (r *_RoottListeners)complete(node interface{}, err errors.Error) {
+	// The root is pending too while its elements are requested.
+	r.IncPendingGetDir()
+	r.client.tree.RemoveListener(r)
 	if err == nil && node != nil {
 		root := node.(*embertree.RootElement)
 		r.client.logger.Debug("Root CallBack.\n")
-		r.client.logger.Debug(root.ToString())
-		root.RemoveListener(r)
+		r.client.logger.Debugln(root.ToString())
 		for _,element := range(root.RootElementCollection) {
-			r.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: r.client, rootListener: r}
 			r.client.logger.Debug("Root Callback GetDir for %s.\n", embertree.Path2String(element.GetPath()))
-			go r.client.GetDirectory(element, elementCallback)
+			r.getDirectory(element)
 		}
 	}
-	if r.pendingGetDirectory == 0 {
-		r.listener.Receive(r.client.tree, err)
-		return
-	}
+	r.DecPendingGetDir(node, err)
 }
 
 func (s *S101Client)GetTree(listener embertree.Listener) errors.Error {
-- 
2.43.0


From 643db47331a954947eb73f078c7e42d88edc9c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 51/60] fix: log argument without a verb

---
 socket/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket/client.go b/socket/client.go
index a27cc43..3fc9b97 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -288,7 +288,7 @@ func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Lis
 		msg = node.GetQualifiedDirectoryMsg(callback)
 	}
 	if err != nil {
-		s.logger.Debug("GetDirectory.\n",err)
+		s.logger.Debug("GetDirectory. %s\n",err.Message)
 		return errors.Update(err)
 	}
 	if s.msTimeout > 0 && callback != nil {
-- 
2.43.0


From dc9addc9b719448f1d9a9a0a1ee32743c0933848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 52/60] fix: Connection.Decode accepts an indefinite-length
 connection with nothing but a target

---
 embertree/connection.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/embertree/connection.go b/embertree/connection.go
index 295a1da..5b93d07 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -143,6 +143,13 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 	}
 
 	for connectionReader.Len() > 0 {
+		end, err := connectionReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		tag, err := connectionReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -188,13 +195,6 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := connectionReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	return nil
 }
-- 
2.43.0


From 12ebc532d3fa4a15135ad1a49541be6b1bba9e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 53/60] fix: report a relative OID which ends in the middle of
 a number

---
 asn1/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index b5c1319..8d9041b 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -95,6 +95,10 @@ func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 		return nil, errors.Update(err)
 	}
 
+	if len(buf) > 0 && buf[len(buf)-1]&0x80 != 0 {
+		return nil, errors.New("Incomplete OID at offset %d.", offset)
+	}
+
 	value := int32(0)
 	for i := 0; i < len(buf); i++ {
 		b := buf[i] & 0xff
-- 
2.43.0


From 83c1632499ad395659873a97a2cd13c1602ec117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 54/60] fix: data of indefinite length without its end is
 reported

---
 asn1/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index 8d9041b..ec72807 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -323,6 +323,9 @@ func (a *ASNReader) ReadIndifiniteLengthData() ([]byte, errors.Error) {
 	var b byte
 	ret := make([]byte, 0)
 	for {
+		if a.Len() == 0 {
+			return ret, errors.New("Missing end of data of indefinite length at offset %d.", a.TopOffset())
+		}
 		end, err := a.CheckSequenceEnd()
 		if err != nil {
 			return ret, errors.Update(err)
-- 
2.43.0


From d31a1f3385c087eb5cf13ebfcca7a5895d2dcff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 55/60] fix: contents can be created for a plain matrix

---
 embertree/matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 9ab7420..c69e638 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -225,7 +225,7 @@ func NewMatrix(number int, mtype MatrixType, mode MatrixMode) (*Element, errors.
 	if err != nil {
 		return nil, errors.Update(err)
 	}
-	element := NewElement(MatrixApplication, number, nil)
+	element := NewElement(MatrixApplication, number, NewDefaultMatrixContents)
 	element.SetContents(content)
 	element.isMatrix = true
 	return element, nil
-- 
2.43.0


From 4e1137b39fc96768fa094ec526373349816afa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 56/60] fix: the path of a qualified element is returned as a
 copy

---
 embertree/qualified_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index d5ff574..ade59c0 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -72,7 +72,7 @@ func IsQualifiedTag(tag uint8) bool {
 
 func (element *Element) GetPath() asn1.RelativeOID {
 	if element.isQualified {
-		return element.path
+		return append(asn1.RelativeOID{}, element.path...)
 	}
 	var parentPath = asn1.RelativeOID{}
 	if element.parent != nil {
-- 
2.43.0


From e35995af3eeabc4fca5174567beaa2a2f721c0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 57/60] fix: listeners of an element which gained a child are
 called even if the rest of the message is refused

---
 embertree/root.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/embertree/root.go b/embertree/root.go
index a380978..b50357b 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -86,6 +86,15 @@ func (root *RootElement) updateElement(element *Element) errors.Error {
 func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 	var updateErr errors.Error
 	modifiedElement := make(map[string]*Element)
+	// What was added stays even if the rest of the message cannot be decoded.
+	defer func() {
+		for path, mElement := range modifiedElement {
+			for _, listener := range mElement.getListeners() {
+				root.logger.Debug("Updating Element %s listener.\n", path)
+				listener.Receive(mElement, nil)
+			}
+		}
+	}()
 	_, reader, err := reader.ReadSequenceStart(asn1.Application(0))
 	if err != nil {
 		return err
@@ -144,12 +153,6 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 		root.logger.Debug("Updating root listener.\n")
 		listener.Receive(root, nil)
 	}
-	for path,mElement := range(modifiedElement) {
-		for _,listener := range(mElement.getListeners()) {
-			root.logger.Debug("Updating Element %s listener.\n", path)
-			listener.Receive(mElement, nil)
-		}
-	}
 	if err == nil {
 		err = updateErr
 	}
-- 
2.43.0


From d803e9e36bf49f248beb41bbfe7eaf3a627263b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 58/60] fix: no memory is allocated for announced bytes which
 were not received

---
 asn1/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index ec72807..5860080 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -34,6 +34,10 @@ func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
 	if length <= 0 {
 		return NewASNReader([]byte{}), nil
 	}
+	if length > a.Len()+2 {
+		// What is missing is taken for the end marker of the sequence.
+		length = a.Len() + 2
+	}
 	b := make([]byte, length)
 	offset := a.TopOffset()
 	_, err := a.data.Read(b)
-- 
2.43.0


From dbe37fb3cf8ab8325e115ad9bfe413b9e09d3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 59/60] fix: octet values are octet strings on the wire

---
 asn1/decode.go                 | 13 +++++++++++++
 embertree/content_parameter.go | 10 ++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 5860080..83be4da 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -406,6 +406,19 @@ func (a *ASNReader) ReadBitString() ([]byte, errors.Error) {
 	return a.readStringBuffer()
 }
 
+func (a *ASNReader) ReadOctetString() ([]byte, errors.Error) {
+	offset := a.TopOffset()
+	tag, err := a.data.ReadByte()
+	if err != nil {
+		return nil, errors.New("Failed To read tag at offset %d. %s", offset, err)
+	}
+	if tag != EMBER_OCTETSTRING {
+		return nil, errors.New("Incorrect octet string tag at offset %d.", offset)
+	}
+
+	return a.readStringBuffer()
+}
+
 func (a *ASNReader) ReadReal() (float64, errors.Error) {
 	offset := a.TopOffset()
 	tag, err := a.data.ReadByte()
diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 8ba7751..a3dc673 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -285,7 +285,7 @@ func (cp *ContentParameter) Encode(context uint8, writer *asn1.ASNWriter) errors
 		if err != nil {
 			return errors.Update(err)
 		}
-		err = writer.WriteBuffer(b, asn1.EMBER_BITSTRING)
+		err = writer.WriteBuffer(b, asn1.EMBER_OCTETSTRING)
 		if err != nil {
 			return errors.Update(err)
 		}
@@ -372,6 +372,13 @@ func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.
 		}
 		contentParameter.SetReal(r)
 		break
+	case asn1.EMBER_OCTETSTRING:
+		s, err := pcReader.ReadOctetString()
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		contentParameter.SetBuffer(s)
+		break
 	case asn1.EMBER_BITSTRING:
 		s, err := pcReader.ReadBitString()
 		if err != nil {
@@ -380,7 +387,6 @@ func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.
 		contentParameter.SetBuffer(s)
 		break
 	case asn1.EMBER_STRING:
-		//case asn1.EMBER_OCTETSTRING:
 		s, err := pcReader.ReadString()
 		if err != nil {
 			return nil, errors.Update(err)
-- 
2.43.0


From f19b77d8d4b05312ac08cf8cd223281437b42c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 60/60] fix: a directory request reaches elements below the
 second level

---
 embertree/element.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index ecefb69..ce148a3 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -244,7 +244,8 @@ func (element *Element) encode(writer *asn1.ASNWriter, asChild bool) errors.Erro
 		}
 	}
 
-	if !asChild {
+	// A child without contents is only there for what is below it.
+	if !asChild || element.contents == nil {
 		//Encode Children
 		if len(element.Children) > 0 {
 			err = writer.StartSequence(asn1.Context(2))
-- 
2.43.0

