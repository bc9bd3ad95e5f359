From e2207e5f8708e2390347e46b2d2449df147718f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 01/37] fix: ReadBoolean: report a missing content octet

---
 asn1/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 4ff5426..1d6582c 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -70,7 +70,7 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 		return false, errors.New("Invalid boolean length %d at offset %d", l, offset)
 	}
 	b, e := a.ReadByte()
-	if err != nil {
+	if e != nil {
 		return false, errors.Update(e)
 	}
 	if b == 0 {
-- 
2.43.0


From fe1c29520af395073312c0817ee5222dc7fc85bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 02/37] fix: reject truncated and empty integers

---
 asn1/decode.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 1d6582c..9cc7c7c 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -214,13 +214,16 @@ func (a *ASNReader) ReadInt() (int, errors.Error) {
 	if err != nil {
 		return 0, err
 	}
-	if l > 4 {
-		return 0, errors.New("Integer length too big %d at offset %d", l, offset)
+	if l < 1 || l > 4 {
+		return 0, errors.New("Invalid integer length %d at offset %d", l, offset)
 	}
 
 	var b byte
 	val := int(0)
 	b, err = a.ReadByte()
+	if err != nil {
+		return 0, errors.Update(err)
+	}
 	if b&0x80 > 0 {
 		val = -1
 	}
@@ -278,11 +281,14 @@ func (a *ASNReader) ReadInt64() (int64, errors.Error) {
 	if err != nil {
 		return 0, errors.Update(err)
 	}
-	if l > 8 {
-		return 0, errors.New("Integer64 length too big %d at offset %d", l, offset)
+	if l < 1 || l > 8 {
+		return 0, errors.New("Invalid integer64 length %d at offset %d", l, offset)
 	}
 
 	val, err := a.readInt64(l)
+	if err != nil {
+		return 0, errors.Update(err)
+	}
 	return val, nil
 }
 
-- 
2.43.0


From 57fe747e606f428bdc2e01bc431b8eb7527b4de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 03/37] fix: ReadOID: check the tag, reject unterminated and
 oversized arcs

---
 asn1/decode.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 9cc7c7c..dfdccc8 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -82,18 +82,27 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 	var oid RelativeOID
 	offset := a.TopOffset()
-	tag, err := a.ReadByte()
+	b, err := a.ReadByte()
 	if err != nil {
 		return nil, errors.New("Failed to read OID tag at offset %d. %s", offset, err)
 	}
+	if b != tag {
+		return nil, errors.New("Incorrect OID tag %d at offset %d.", b, offset)
+	}
 	buf, err := a.readStringBuffer()
 	if err != nil {
 		return nil, errors.Update(err)
 	}
 
+	if len(buf) > 0 && buf[len(buf)-1]&0x80 != 0 {
+		return nil, errors.New("Unterminated OID at offset %d.", offset)
+	}
 	value := int32(0)
 	for i := 0; i < len(buf); i++ {
 		b := buf[i] & 0xff
+		if value > 0xffffff {
+			return nil, errors.New("OID arc too big at offset %d.", offset)
+		}
 		value <<= 7
 		value += int32(b & 0x7f)
 		if b&0x80 == 0 {
-- 
2.43.0


From e4af764fe0dc2e3fbeb5ff438e038a0a09928e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 04/37] fix: reject string and OID lengths larger than the
 remaining input

---
 asn1/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index dfdccc8..cce9abb 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -338,6 +338,9 @@ func (a *ASNReader) readStringBuffer() ([]byte, errors.Error) {
 	} else if l == 0 {
 		return nil, nil
 	}
+	if l > a.Len() {
+		return nil, errors.New("Length %d exceeds the %d bytes left at offset %d.", l, a.Len(), a.TopOffset())
+	}
 	b = make([]byte, l)
 	for i := 0; i < l; i++ {
 		b[i], err = a.ReadByte()
-- 
2.43.0


From 5efdc91ccf857ba395ff2a6387c4f94d5dc09925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 05/37] fix: ReadSequenceStart: report a malformed length

---
 asn1/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index cce9abb..7e4948f 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -162,6 +162,9 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 		return -1, a, errors.New("Sequence TAG mismatch at offset %d. Got %d instead of %d", offset, b, tag)
 	}
 	length, err := a.ReadLength()
+	if err != nil {
+		return -1, nil, errors.Update(err)
+	}
 	if length >= 0 {
 		newReader, err := a.NewReader(length)
 
-- 
2.43.0


From a710915f50113cfdf3128cb3de0d8c768cbfaa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 06/37] fix: NewReader: keep the offset of an empty sub-reader

---
 asn1/decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 7e4948f..b9e8afa 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -31,7 +31,9 @@ func (a *ASNReader) TopOffset() int {
 
 func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
 	if length <= 0 {
-		return NewASNReader([]byte{}), nil
+		emptyReader := NewASNReader([]byte{})
+		emptyReader.startingOffset = a.TopOffset()
+		return emptyReader, nil
 	}
 	b := make([]byte, length)
 	offset := a.TopOffset()
-- 
2.43.0


From e315531645c590dad4bdd1c7b1966ef1ae690911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 07/37] fix: ReadReal: reject significands and exponents a
 float64 cannot hold

---
 asn1/decode.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index b9e8afa..d4b082e 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -397,7 +397,7 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 	}
 
 	buf, e := a.readStringBuffer()
-	if e != nil || buf == nil {
+	if e != nil || len(buf) == 0 {
 		return 0.0, errors.Update(e)
 	}
 
@@ -437,12 +437,24 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 		pos++
 	}
 
+	if exponent < -1023 || exponent > 1023 {
+		return math.NaN(), errors.New("Invalid real exponent %d at offset %d.", exponent, offset)
+	}
+
+	if len(buf)-pos > 8 {
+		return math.NaN(), errors.New("Real significand too big at offset %d.", offset)
+	}
+
 	significand := uint64(0)
 	for pos < len(buf) {
 		significand = (significand << 8) | uint64(buf[pos])
 		pos++
 	}
 
+	if significand == 0 || significand > uint64(0x001FFFFFFFFFFFFF)>>significandShift {
+		return math.NaN(), errors.New("Invalid real significand at offset %d.", offset)
+	}
+
 	significand = significand << significandShift
 
 	mask := uint64(0x7FFFF00000000000)
-- 
2.43.0


From bc4f28a38f84a3d5bbfc49823d07f690d084ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 08/37] fix: writeLength: write three and four octet lengths

---
 asn1/encode.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index c9426eb..8264904 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -259,7 +259,25 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
 	} else if len <= 0xffffff {
-		err = asn.data.WriteByte(0x82)
+		err = asn.data.WriteByte(0x83)
+		if err != nil {
+			return errors.NewError(err)
+		}
+		err = asn.data.WriteByte(byte((len >> 16) & 0xFF))
+		if err != nil {
+			return errors.NewError(err)
+		}
+		err = asn.data.WriteByte(byte((len >> 8) & 0xFF))
+		if err != nil {
+			return errors.NewError(err)
+		}
+		err = asn.data.WriteByte(byte(len & 0xFF))
+	} else {
+		err = asn.data.WriteByte(0x84)
+		if err != nil {
+			return errors.NewError(err)
+		}
+		err = asn.data.WriteByte(byte((len >> 24) & 0xFF))
 		if err != nil {
 			return errors.NewError(err)
 		}
-- 
2.43.0


From def8102ee93f397e7915276422dd601d81bef57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 09/37] fix: WriteRelativeOID: write arc 127 in one octet

---
 asn1/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index 8264904..b0d2a05 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -350,7 +350,7 @@ func (asn *ASNWriter) WriteRelativeOID(oid RelativeOID) errors.Error {
 		val := oid[i]
 		encodedBytes := make([]byte, 0)
 		for {
-			if val < 0x7F {
+			if val <= 0x7F {
 				break
 			}
 			encodedBytes = append(encodedBytes, byte(val&0x7F))
-- 
2.43.0


From 5760ad23a627d864701de2ed4900c254e1ad51b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 10/37] fix: use the Glow values for command field flags

---
 embertree/command.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/embertree/command.go b/embertree/command.go
index e6631a2..f783ba0 100755
--- a/embertree/command.go
+++ b/embertree/command.go
@@ -17,13 +17,13 @@ type FieldFlags int
 
 const (
 	SparseFieldFlags      FieldFlags = -2
-	ALLFieldFlags         FieldFlags  = iota
-	DefaultFieldFlags     FieldFlags  = iota
-	IdentifierFieldFlags  FieldFlags  = iota
-	DescriptionFieldFlags FieldFlags  = iota
-	TreeFieldFlags        FieldFlags  = iota
-	ValueFieldFlags       FieldFlags  = iota
-	ConnectionsFieldFlags FieldFlags  = iota
+	ALLFieldFlags         FieldFlags  = iota - 2
+	DefaultFieldFlags     FieldFlags  = iota - 2
+	IdentifierFieldFlags  FieldFlags  = iota - 2
+	DescriptionFieldFlags FieldFlags  = iota - 2
+	TreeFieldFlags        FieldFlags  = iota - 2
+	ValueFieldFlags       FieldFlags  = iota - 2
+	ConnectionsFieldFlags FieldFlags  = iota - 2
 )
 
 type CommandContents struct {
-- 
2.43.0


From 0814389968c1e604ee1f62abfbc1de9b5646b8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 11/37] fix: decode qualified functions

---
 embertree/elementFactory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index db2e9f8..8003e39 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -21,6 +21,8 @@ func getContentCreator(tag uint8) (ContentCreator, errors.Error) {
 		fallthrough
 	case MatrixApplication:
 		return NewDefaultMatrixContents, nil
+	case QualifiedFunctionApplication:
+		fallthrough
 	case FunctionApplication:
 		return NewFunctionContents, nil
 	default:
-- 
2.43.0


From 16a36c293e32914c2de90a8d97c90104e852e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 12/37] fix: reject qualified elements with an empty path

---
 embertree/elementFactory.go    | 3 +++
 embertree/qualified_element.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 8003e39..5713c45 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -163,6 +163,9 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	} else {
 		element = NewElement(tag, number, contentCreator)
 	}
+	if element == nil {
+		return nil, errors.New("Invalid path for element tag 0x%x at offset %d.", tag, reader.TopOffset())
+	}
 	for elementReader.Len() > 0 {
 		b, err := elementReader.Peek()
 		if err != nil {
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 74b8379..1b4273e 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -44,6 +44,9 @@ func NewQualifiedParameter(path asn1.RelativeOID) *Element {
 
 func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode) *Element {
 	q := NewQualifiedElement(QualifiedMatrixApplication, path, NewDefaultMatrixContents)
+	if q == nil {
+		return nil
+	}
 	q.isMatrix = true
 	return q
 }
-- 
2.43.0


From 630d2e8282508fb07a2765d5773a87581ed1ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 13/37] fix: check ReadSequenceStart errors while decoding

---
 embertree/connection.go     | 6 ++++++
 embertree/elementFactory.go | 3 +++
 embertree/matrix.go         | 3 +++
 embertree/node.go           | 3 +++
 embertree/parameter.go      | 3 +++
 5 files changed, 18 insertions(+)

diff --git a/embertree/connection.go b/embertree/connection.go
index 506b13a..295a1da 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -149,6 +149,9 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 
 		_, ctxtReader, err := connectionReader.ReadSequenceStart(tag)
+		if err != nil {
+			return errors.Update(err)
+		}
 		switch tag {
 		case asn1.Context(1):
 			//Sources
@@ -189,6 +192,9 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		if end {
 			break
 		}
+		if err != nil {
+			return errors.Update(err)
+		}
 	}
 	return nil
 }
diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 5713c45..c7195f9 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -89,6 +89,9 @@ func decodeContents(element *Element, ctxt uint8, reader *asn1.ASNReader) (inter
 
 func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors.Error {
 	_, ctxtReader, err := reader.ReadSequenceStart(ctxt)
+	if err != nil {
+		return errors.Update(err)
+	}
 	_, childrenReader, err := ctxtReader.ReadSequenceStart(asn1.Application(4))
 	if err != nil {
 		return errors.Update(err)
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 8cc4036..a601304 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -376,6 +376,9 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if peek == templateReferenceContext {
 			_, templateReader, err := matrixContentReader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
diff --git a/embertree/node.go b/embertree/node.go
index 7479e63..b9dc6a9 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -182,6 +182,9 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		case asn1.Context(5):
 			{
 				_, templateReader, err := reader.ReadSequenceStart(peek)
+				if err != nil {
+					return errors.Update(err)
+				}
 				templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 				if err != nil {
 					return errors.Update(err)
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 6216a53..308a6a7 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -203,6 +203,9 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if index == 18 {
 			_, templateReader, err := reader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
-- 
2.43.0


From aab7c9e759eb17ebbf13648553f435599d796c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 14/37] fix: reject unknown context tags

---
 embertree/elementFactory.go | 2 ++
 embertree/matrix.go         | 2 ++
 embertree/parameter.go      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index c7195f9..1b3ae05 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -200,6 +200,8 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 			if err != nil {
 				return nil, errors.Update(err)
 			}
+		} else {
+			return nil, errors.New("Unknown element context 0x%x at offset %d.", b, elementReader.TopOffset())
 		}
 		end, err := elementReader.CheckSequenceEnd()
 		if end {
diff --git a/embertree/matrix.go b/embertree/matrix.go
index a601304..8159c89 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -388,6 +388,8 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown matrix content tag 0x%x.", peek)
 		}
 		end, err := matrixContentReader.CheckSequenceEnd()
 		if end {
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 308a6a7..00db246 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -215,6 +215,8 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown parameter content tag 0x%x.", peek)
 		}
 		end, err := reader.CheckSequenceEnd()
 		if end {
-- 
2.43.0


From 48a0f20dec84b36d241e8a67db3ae259f70e82a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 15/37] fix: decode empty indefinite-length collections

---
 embertree/elementFactory.go |  6 +++++-
 embertree/function.go       | 12 ++++++++++--
 embertree/invocation.go     |  6 +++++-
 embertree/matrix.go         | 12 ++++++++++--
 embertree/matrix_element.go | 12 ++++++++++--
 embertree/node.go           |  6 +++++-
 embertree/parameter.go      |  6 +++++-
 embertree/root.go           |  6 +++++-
 8 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 1b3ae05..aadd0d8 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -96,7 +96,11 @@ func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors
 	if err != nil {
 		return errors.Update(err)
 	}
-	for childrenReader.Len() > 0 {
+	end, err := childrenReader.CheckSequenceEnd()
+	if err != nil {
+		return errors.Update(err)
+	}
+	for !end && childrenReader.Len() > 0 {
 		_, childReader, err := childrenReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
diff --git a/embertree/function.go b/embertree/function.go
index 8471fa7..6536f6d 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -96,7 +96,11 @@ func decodeTupleDescriptions(reader *asn1.ASNReader) ([]*TupleDescription, error
 	if err != nil {
 		return nil, errors.Update(err)
 	}
-	for seqReader.Len() > 0 {
+	end, err := seqReader.CheckSequenceEnd()
+	if err != nil {
+		return nil, errors.Update(err)
+	}
+	for !end && seqReader.Len() > 0 {
 		_, argReader, err := seqReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return nil, errors.Update(err)
@@ -243,7 +247,11 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for reader.Len() > 0 {
+	end, err := reader.CheckSequenceEnd()
+	if err != nil {
+		return errors.Update(err)
+	}
+	for !end && reader.Len() > 0 {
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
diff --git a/embertree/invocation.go b/embertree/invocation.go
index c7f1565..06d1948 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -92,7 +92,11 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
-			for seqReader.Len() > 0 {
+			end, err := seqReader.CheckSequenceEnd()
+			if err != nil {
+				return errors.Update(err)
+			}
+			for !end && seqReader.Len() > 0 {
 				value, err := DecodeValue(seqReader, 0)
 				if err != nil {
 					return errors.Update(err)
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 8159c89..151ec61 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -271,7 +271,11 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for seqReader.Len() > 0 {
+	end, err := seqReader.CheckSequenceEnd()
+	if err != nil {
+		return errors.Update(err)
+	}
+	for !end && seqReader.Len() > 0 {
 		_, ctxtReader, err := seqReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
@@ -348,7 +352,11 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for matrixContentReader.Len() > 0 {
+	end, err := matrixContentReader.CheckSequenceEnd()
+	if err != nil {
+		return errors.Update(err)
+	}
+	for !end && matrixContentReader.Len() > 0 {
 		peek, err := matrixContentReader.Peek()
 		if err != nil {
 			return errors.Update(err)
diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index 974227b..a7c1b15 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -59,7 +59,11 @@ func DeodeSignals(reader *asn1.ASNReader, ctxt uint8) ([]Signal, errors.Error) {
 		return nil, errors.Update(err)
 	}
 
-	for setReader.Len() > 0 {
+	end, err := setReader.CheckSequenceEnd()
+	if err != nil {
+		return nil, errors.Update(err)
+	}
+	for !end && setReader.Len() > 0 {
 		_, ctxtReader, err := setReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return nil, errors.Update(err)
@@ -153,7 +157,11 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for setReader.Len() > 0 {
+	end, err := setReader.CheckSequenceEnd()
+	if err != nil {
+		return errors.Update(err)
+	}
+	for !end && setReader.Len() > 0 {
 		_, ctxtReader, err := setReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
diff --git a/embertree/node.go b/embertree/node.go
index b9dc6a9..44051d2 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -142,7 +142,11 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for reader.Len() > 0 {
+	end, err := reader.CheckSequenceEnd()
+	if err != nil {
+		return errors.Update(err)
+	}
+	for !end && reader.Len() > 0 {
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 00db246..e440fda 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -186,7 +186,11 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for reader.Len() > 0 {
+	end, err := reader.CheckSequenceEnd()
+	if err != nil {
+		return errors.Update(err)
+	}
+	for !end && reader.Len() > 0 {
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
diff --git a/embertree/root.go b/embertree/root.go
index 2cbd180..ced3f36 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -96,7 +96,11 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		for collectionReader.Len() > 0 {
+		end, err := collectionReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		for !end && collectionReader.Len() > 0 {
 			_, elementReader, err := collectionReader.ReadSequenceStart(asn1.Context(0))
 			if err != nil {
 				return errors.Update(err)
-- 
2.43.0


From 8701ae3fec2cf31800f38b5bf1628b51544de84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 16/37] fix: use the Glow context numbers for matrix contents

---
 embertree/matrix.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 151ec61..966b38c 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -9,14 +9,14 @@ import (
 
 const (
 	matrixTypeCtx               = 2
-	matrixModeCtx               = iota
-	targetCountCtx              = iota
-	sourceCounCtx               = iota
-	maximumTotalConnectsCtx     = iota
-	maximumConnectsPerTargetCtx = iota
-	parametersLocationCtx       = iota
-	gainParameterNumberCtx      = iota
-	matrixContentSize           = iota
+	matrixModeCtx               = iota + 2
+	targetCountCtx              = iota + 2
+	sourceCounCtx               = iota + 2
+	maximumTotalConnectsCtx     = iota + 2
+	maximumConnectsPerTargetCtx = iota + 2
+	parametersLocationCtx       = iota + 2
+	gainParameterNumberCtx      = iota + 2
+	matrixContentSize           = iota + 2
 )
 
 type MatrixType int8
-- 
2.43.0


From aff485c1bd6df93ba624fbd1e6fc57bb48186d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 17/37] fix: DecodeLabels: end the label container and report
 errors

---
 embertree/matrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 966b38c..551c596 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -297,7 +297,7 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 	}
-	err = reader.ReadSequenceEnd()
+	err = labelReader.ReadSequenceEnd()
 	if err != nil {
 		return errors.Update(err)
 	}
@@ -372,7 +372,10 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 		} else if peek == labelContext {
-			c.DecodeLabels(matrixContentReader)
+			err = c.DecodeLabels(matrixContentReader)
+			if err != nil {
+				return errors.Update(err)
+			}
 		} else if index == 11 {
 			value, err := DecodeValue(matrixContentReader, index)
 			if err != nil {
-- 
2.43.0


From 006b7cbf1c94c50cdb29889ea438a1bf9ee6222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 18/37] fix: ContentParameter.Set: copy relative OIDs

---
 embertree/content_parameter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 5308270..806bdae 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -149,6 +149,13 @@ func (cp *ContentParameter) Set(val *ContentParameter) errors.Error {
 		}
 		cp.SetReal(b)
 		break
+	case ValueTypeOID:
+		b, err := val.GetRelativeOID()
+		if err != nil {
+			return err
+		}
+		cp.SetRelativeOID(b)
+		break
 	}
 	return nil
 }
-- 
2.43.0


From 0a65d2469b6112f1d3e04e8307c56bcc43fc29ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 19/37] fix: DecodeValue: decode relative OIDs

---
 embertree/content_parameter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 806bdae..8ba7751 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -387,6 +387,13 @@ func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.
 		}
 		contentParameter.SetString(s)
 		break
+	case asn1.EMBER_RELATIVE_OID:
+		oid, err := pcReader.ReadOID(asn1.EMBER_RELATIVE_OID)
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		contentParameter.SetRelativeOID(oid)
+		break
 	default:
 		return nil, errors.New("Unknown value type %d.", pcType)
 	}
-- 
2.43.0


From 1e2b8da42b2f4306f79735a0fccdd73d16f34c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 20/37] fix: node and function contents: report field errors

---
 embertree/function.go | 15 ++++++++++-----
 embertree/node.go     | 27 +++++++++++++++++++++------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/embertree/function.go b/embertree/function.go
index 6536f6d..8d04914 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -266,10 +266,16 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 		switch peek {
 		case asn1.Context(0):
-			fc.identifier.Set(value)
+			err = fc.identifier.Set(value)
+			if err != nil {
+				return errors.Update(err)
+			}
 			break
 		case asn1.Context(1):
-			fc.description.Set(value)
+			err = fc.description.Set(value)
+			if err != nil {
+				return errors.Update(err)
+			}
 			break
 		case asn1.Context(2):
 			arguments, err := decodeTupleDescriptions(ctxtReader)
@@ -317,7 +323,7 @@ func (fc *FunctionContents) Encode(writer *asn1.ASNWriter) errors.Error {
 	}
 
 	if fc.description.IsSet() {
-		fc.description.Encode(1, writer)
+		err = fc.description.Encode(1, writer)
 		if err != nil {
 			return errors.Update(err)
 		}
@@ -336,8 +342,7 @@ func (fc *FunctionContents) Encode(writer *asn1.ASNWriter) errors.Error {
 			return errors.Update(err)
 		}
 	}
-	writer.EndSequence()
-	return nil
+	return writer.EndSequence()
 }
 
 func (fc *FunctionContents) ToString() string {
diff --git a/embertree/node.go b/embertree/node.go
index 44051d2..427c112 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -89,7 +89,7 @@ func (nc *NodeContents) Encode(writer *asn1.ASNWriter) errors.Error {
 	}
 
 	if nc.description.IsSet() {
-		nc.description.Encode(1, writer)
+		err = nc.description.Encode(1, writer)
 		if err != nil {
 			return errors.Update(err)
 		}
@@ -160,27 +160,42 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		switch peek {
 		case asn1.Context(0):
 			{
-				nc.identifier.Set(value)
+				err = nc.identifier.Set(value)
+				if err != nil {
+					return errors.Update(err)
+				}
 				break
 			}
 		case asn1.Context(1):
 			{
-				nc.description.Set(value)
+				err = nc.description.Set(value)
+				if err != nil {
+					return errors.Update(err)
+				}
 				break
 			}
 		case asn1.Context(2):
 			{
-				nc.isRoot.Set(value)
+				err = nc.isRoot.Set(value)
+				if err != nil {
+					return errors.Update(err)
+				}
 				break
 			}
 		case asn1.Context(3):
 			{
-				nc.isOnline.Set(value)
+				err = nc.isOnline.Set(value)
+				if err != nil {
+					return errors.Update(err)
+				}
 				break
 			}
 		case asn1.Context(4):
 			{
-				nc.schemaIdentifiers.Set(value)
+				err = nc.schemaIdentifiers.Set(value)
+				if err != nil {
+					return errors.Update(err)
+				}
 				break
 			}
 		case asn1.Context(5):
-- 
2.43.0


From 49ffc5e9a33efd7c1a2d421553f4d4a69ec83065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 21/37] fix: tuple, function and invocation decoding: report a
 truncated end

---
 embertree/function.go   | 10 ++++++++--
 embertree/invocation.go |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/embertree/function.go b/embertree/function.go
index 8d04914..02ff37b 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -193,7 +193,10 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 		end, err := tupleReader.CheckSequenceEnd()
-		if end || err != nil {
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
 			break
 		}
 	}
@@ -303,7 +306,10 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.New("Unknown function content tag %d", peek)
 		}
 		end, err := reader.CheckSequenceEnd()
-		if end || err != nil {
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
 			break
 		}
 	}
diff --git a/embertree/invocation.go b/embertree/invocation.go
index 06d1948..d02bbe7 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -119,7 +119,10 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 		end, err := invocationReader.CheckSequenceEnd()
-		if end || err != nil {
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
 			break
 		}
 	}
-- 
2.43.0


From a720fa0768437b2878ed40a411fa02947ca5993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 22/37] fix: Invocation.Decode: keep the decoded arguments

---
 embertree/invocation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/embertree/invocation.go b/embertree/invocation.go
index d02bbe7..656cd7b 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -110,6 +110,7 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 					return errors.Update(err)
 				}
 			}
+			i.arguments = arguments
 			break
 		default:
 			return errors.New("Invovation decode error: Unknwon tag %d", peek)
-- 
2.43.0


From 2b612077daa89269dba533ad8be03f703742b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 23/37] fix: encode the children of children

---
 embertree/element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index bab11d1..c6a569c 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -256,7 +256,7 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		err := child.encode(writer, true)
+		err := child.encode(writer, false)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 39eeb45e544a99793eefd9d16de0cf4c526b5302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 24/37] fix: GetPath: neither share nor cache paths

---
 embertree/qualified_element.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 1b4273e..1786cc8 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -56,14 +56,14 @@ func IsQualifiedTag(tag uint8) bool {
 }
 
 func (element *Element) GetPath() asn1.RelativeOID {
-	if len(element.path) <= 0 {
-		var parentPath = asn1.RelativeOID{}
-		if element.parent != nil {
-			parentPath = element.parent.GetPath()
-		}
-		element.path = append(parentPath, int32(element.Number))
+	if element.isQualified {
+		return element.path
 	}
-	return element.path
+	var path = asn1.RelativeOID{}
+	if element.parent != nil {
+		path = append(path, element.parent.GetPath()...)
+	}
+	return append(path, int32(element.Number))
 }
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
-- 
2.43.0


From c9420e21edae85fce5c9303ce29abcb705ade18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 25/37] fix: GetQualifiedDirectoryMsg: use the qualified tag

---
 embertree/qualified_element.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 1786cc8..e8d3785 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -51,6 +51,21 @@ func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode
 	return q
 }
 
+// qualifiedTag returns the tag of the qualified form of an element
+func qualifiedTag(tag uint8) uint8 {
+	switch tag {
+	case ParameterApplication:
+		return QualifiedParameterApplication
+	case NodeApplication:
+		return QualifiedNodeApplication
+	case MatrixApplication:
+		return QualifiedMatrixApplication
+	case FunctionApplication:
+		return QualifiedFunctionApplication
+	}
+	return tag
+}
+
 func IsQualifiedTag(tag uint8) bool {
 	return qualifiedTags[tag] == true
 }
@@ -68,7 +83,7 @@ func (element *Element) GetPath() asn1.RelativeOID {
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
 	path := element.GetPath()
-	dupElement := NewQualifiedElement(element.tag, path, nil)
+	dupElement := NewQualifiedElement(qualifiedTag(element.tag), path, nil)
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	dupElement.AddChild(cmd)
 	root := NewRoot()
-- 
2.43.0


From c47888a6c41b0836b36905d6a8a5b1461167ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 26/37] fix: Update: accept the qualified form of the same
 element

---
 embertree/element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index c6a569c..6466c83 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -117,7 +117,7 @@ func (element *Element) SetContents(contents interface{}) errors.Error {
 
 func (element *Element) Update(newElement *Element) errors.Error {
 	var err errors.Error
-	if element.Number != newElement.Number || element.tag != newElement.tag {
+	if element.Number != newElement.Number || qualifiedTag(element.tag) != qualifiedTag(newElement.tag) {
 		return errors.New("Attempt to update different element Number %d/%d Tag %d/%d", element.Number, newElement.Number, element.tag, newElement.tag)
 	}
 	content := newElement.GetContent()
-- 
2.43.0


From 9a581c43931f65d63bfa18f1fd2be16aafc35246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 27/37] fix: GetElementByPath: do not skip a missing
 intermediate element

---
 embertree/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index ced3f36..8e2db23 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -48,7 +48,7 @@ func (root *RootElement) GetElementByPath(path asn1.RelativeOID) (*Element,*Elem
 		parent = element
 		element = element.Children[int(path[pos])]
 	}
-	if pos + 1 < len(path) {
+	if pos < len(path) {
 		return nil,nil
 	}
 	return parent,element
-- 
2.43.0


From a2200e0e4c7eb585296709f03721cab2185def14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 28/37] fix: NewRoot: create listeners and logger

---
 embertree/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index 8e2db23..12da3f2 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -23,7 +23,7 @@ func NewTree() *RootElement {
 }
 
 func NewRoot() *RootElement {
-	return &RootElement{listeners: nil, RootElementCollection: make(map[int]*Element)}
+	return NewTree()
 }
 
 func (root *RootElement) GetElementByNumber(number int) *Element {
-- 
2.43.0


From a51d9771c93102def92de748319a25e9c2cbb487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 29/37] fix: GetDirectoryMsg: do not register a nil listener

---
 embertree/root.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index 12da3f2..4cee342 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -173,7 +173,9 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 	root := NewRoot()
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	root.AddElement(cmd)
-	r.AddListener(listener)
+	if listener != nil {
+		r.AddListener(listener)
+	}
 	return root, nil
 }
 
-- 
2.43.0


From 6600655a740d8b6802f4f4fab7129ef8febbccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 30/37] fix: GetDirectoryMsg: keep qualified elements qualified

---
 embertree/element.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 6466c83..d280fcb 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -268,13 +268,21 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 	return writer.EndSequence()
 }
 
+// dup copies the identity of an element, without contents and children
+func (element *Element) dup() *Element {
+	if element.isQualified {
+		return NewQualifiedElement(element.tag, element.path, nil)
+	}
+	return NewElement(element.tag, element.Number, nil)
+}
+
 func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 	e := element
-	dupElement := NewElement(e.tag, e.Number, nil)
+	dupElement := e.dup()
 	if cmd != nil {
 		dupElement.AddChild(cmd)
 	}
-	for {
+	for !e.isQualified {
 		parent, err := e.GetParent()
 		if err != nil {
 			return nil, err
@@ -282,7 +290,7 @@ func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 		if parent == nil {
 			break
 		}
-		dupParent := NewElement(parent.tag, parent.Number, nil)
+		dupParent := parent.dup()
 		dupParent.AddChild(dupElement)
 		e = parent
 		dupElement = dupParent
-- 
2.43.0


From 2c2a6208c8bcd92e2f5879f5d19a2975b183ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 31/37] fix: DecodeBuffer: frame delimiters end a pending
 escape

---
 socket/frame.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/socket/frame.go b/socket/frame.go
index b9309e7..065ac6f 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -315,15 +315,16 @@ func (decoder *S101Decoder)SetLogger(logger Logger) {
 func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	for i := 0; i < bufLen; i++ {
 		b := buf[i];
-		if (decoder.escaped) {
+		if b == S101_BOF {
+			decoder.inbuf.Reset();
+			decoder.escaped = false;
+		} else if (decoder.escaped && b != S101_EOF) {
 			decoder.inbuf.WriteByte(b ^ S101_XOR);
 			decoder.escaped = false;
 		} else if b == S101_CE {
 			decoder.escaped = true;
-		} else if b == S101_BOF {
-			decoder.inbuf.Reset();
-			decoder.escaped = false;
 		} else if b == S101_EOF {
+			decoder.escaped = false;
 			decoder.logger.Debug("End of Frame - frame size %d.\n", decoder.inbuf.Len())
 			decoder.logger.Debugln(decoder.inbuf)
 			buffer := make([]byte, decoder.inbuf.Len())
-- 
2.43.0


From b2054c9bec5e219c728f04055208137a8474ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 32/37] fix: do not deliver a message with a dropped frame

---
 socket/frame.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/socket/frame.go b/socket/frame.go
index 065ac6f..f09fc33 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -285,6 +285,7 @@ type S101Decoder struct {
 	inbuf bytes.Buffer
 	logger Logger
 	emberbuf bytes.Buffer
+	inMessage bool
 	keepAliveReqHandler PacketHandler
 	keepAliveResHandler PacketHandler
 	emberPacketHandler PacketHandler
@@ -332,6 +333,9 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 			decoder.inbuf.Reset();
 			err := decoder.HandleFrame(buffer);
 			if err != nil {
+				// a multi packet message with a missing frame can't be completed
+				decoder.emberbuf.Reset()
+				decoder.inMessage = false
 				decoder.errorHandler(err)
 			}
 		} else {
@@ -400,6 +404,11 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 	if emberFrame.Header.Flags & FLAG_FIRST_MULTI_PACKET != 0 {
 		decoder.logger.Debug("Ember Frame first multi packet.\n")
 		decoder.emberbuf.Reset()
+		decoder.inMessage = true
+	}
+
+	if !decoder.inMessage {
+		return errors.New("Dropping frame without first packet.")
 	}
 
 	if emberFrame.Header.Flags & FLAG_EMPTY_PACKET == 0 {
@@ -411,6 +420,7 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 		emberPacket := make([]byte, decoder.emberbuf.Len())
 		decoder.emberbuf.Read(emberPacket)
 		decoder.emberbuf.Reset()
+		decoder.inMessage = false
 		decoder.emberPacketHandler(emberPacket)
 	}
 	decoder.logger.Debug("Ember Frame parsing complete.\n")
-- 
2.43.0


From c4db0b4bf8c6d60fb019ff71f61526405d2eff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 33/37] fix: packetQueue: do not grow beyond the limit

---
 socket/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket/client.go b/socket/client.go
index 6529d4d..a52c59a 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -39,7 +39,7 @@ func (p *packetQueue) isEmpty() bool {
 }
 
 func (p *packetQueue) add(msg *embertree.RootElement) errors.Error{
-	if p.size() > maxQueueSize {
+	if p.size() >= maxQueueSize {
 		return errors.New("Queue size limit. Drop message.")
 	}
 	p.queue.PushBack(msg)
-- 
2.43.0


From 4a61288f94fe747c7ccdf6fec79c275878d069b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 34/37] fix: answer keep-alive requests

---
 socket/client.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index a52c59a..94becbd 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -81,10 +81,13 @@ type S101Client struct {
 }
 
 func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
-	// This should go at the head of the queue
+	// This should go before anything in the queue
 	s.logger.Debug("KAL Request Received.\n")
-	s.outQ.queue.PushFront(GetKeepAliveResponse())
-	return nil
+	if !s.IsConnected() {
+		return errors.New("Not connected")
+	}
+	_, err := s.conn.Write(GetKeepAliveResponse().Bytes())
+	return errors.NewError(err)
 }
 
 func (s *S101Client)keepAliveResponseHandler(kal []byte) errors.Error {
-- 
2.43.0


From 059535717cff811087e8cea734473083ab5ee83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 35/37] fix: WriteReal: put the number of exponent octets in
 the preamble

---
 asn1/encode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index b0d2a05..943cfa7 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -218,7 +218,8 @@ func (asn *ASNWriter) WriteReal(r float64) errors.Error {
 	significandSize, significandVal := shortenLong(significand)
 
 	asn.writeLength(1 + expSize + significandSize)
-	preamble := uint8(0x80)
+	// the two low bits hold the number of exponent octets less one
+	preamble := uint8(0x80) | uint8(expSize-1)
 	if r < 0 {
 		preamble |= 0x40
 	}
-- 
2.43.0


From e3ce4a96de16d225481c147fba244ff90d9bf7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:17 +0000
Subject: [PATCH 36/37] fix: DecodeElement: accept an indefinite-length element
 that only has a number

---
 embertree/elementFactory.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index aadd0d8..74a846d 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -173,7 +173,12 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	if element == nil {
 		return nil, errors.New("Invalid path for element tag 0x%x at offset %d.", tag, reader.TopOffset())
 	}
-	for elementReader.Len() > 0 {
+	// an element that only has a number ends right here.
+	end, err := elementReader.CheckSequenceEnd()
+	if err != nil {
+		return nil, errors.Update(err)
+	}
+	for !end && elementReader.Len() > 0 {
 		b, err := elementReader.Peek()
 		if err != nil {
 			return nil, errors.Update(err)
-- 
2.43.0


From 0d8d6443353e3a4e9113b1ae4ed824224964dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 37/37] fix: RootElement.Encode reports errors of the elements
 it encodes

---
 embertree/root.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/embertree/root.go b/embertree/root.go
index 4cee342..8f1e969 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -146,15 +146,33 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 }
 
 func (root *RootElement) Encode(writer *asn1.ASNWriter) errors.Error {
-	writer.StartSequence(asn1.Application(0))
+	err := writer.StartSequence(asn1.Application(0))
+	if err != nil {
+		return errors.Update(err)
+	}
 	if len(root.RootElementCollection) > 0 {
-		writer.StartSequence(asn1.Application(11))
+		err = writer.StartSequence(asn1.Application(11))
+		if err != nil {
+			return errors.Update(err)
+		}
 		for _, element := range root.RootElementCollection {
-			writer.StartSequence(asn1.Context(0))
-			element.Encode(writer)
-			writer.EndSequence()
+			err = writer.StartSequence(asn1.Context(0))
+			if err != nil {
+				return errors.Update(err)
+			}
+			err = element.Encode(writer)
+			if err != nil {
+				return errors.Update(err)
+			}
+			err = writer.EndSequence()
+			if err != nil {
+				return errors.Update(err)
+			}
+		}
+		err = writer.EndSequence()
+		if err != nil {
+			return errors.Update(err)
 		}
-		writer.EndSequence()
 	}
 	// if (this.isRoot() && this._result != null) {
 	// 	this._result.encode(ber);
-- 
2.43.0

