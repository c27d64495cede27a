From ea4ff2ff9372eb0f0ed2a425431fff90c5550263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 01/26] fix: binary protocol refuses negative string, binary
 and container sizes

---
 lib/go/src/thrift/tbinary_protocol.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tbinary_protocol.go b/lib/go/src/thrift/tbinary_protocol.go
index 424fd84..8b0a996 100644
--- a/lib/go/src/thrift/tbinary_protocol.go
+++ b/lib/go/src/thrift/tbinary_protocol.go
@@ -328,6 +328,10 @@ func (p *TBinaryProtocol) ReadMapBegin() (kType, vType TType, size int, err TPro
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative map size")
+		return
+	}
 	return kType, vType, size, nil
 }
 
@@ -348,6 +352,10 @@ func (p *TBinaryProtocol) ReadListBegin() (elemType TType, size int, err TProtoc
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative list size")
+		return
+	}
 	return elemType, size, nil
 }
 
@@ -368,6 +376,10 @@ func (p *TBinaryProtocol) ReadSetBegin() (elemType TType, size int, err TProtoco
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative set size")
+		return
+	}
 	return elemType, size, nil
 }
 
@@ -432,6 +444,9 @@ func (p *TBinaryProtocol) ReadBinary() ([]byte, TProtocolException) {
 		return nil, e
 	}
 	isize := int(size)
+	if isize < 0 {
+		return nil, NewTProtocolException(NEGATIVE_SIZE, "Negative binary size")
+	}
 	e = p.checkReadLength(isize)
 	if e != nil {
 		return nil, e
@@ -479,7 +494,7 @@ func (p *TBinaryProtocol) checkReadLength(length int) TProtocolException {
 
 func (p *TBinaryProtocol) readStringBody(size int) (value string, err TProtocolException) {
 	if size < 0 {
-		return "", nil
+		return "", NewTProtocolException(NEGATIVE_SIZE, "Negative string size")
 	}
 	err = p.checkReadLength(size)
 	if err != nil {
-- 
2.43.0


From 9feaa0ad1a8fcc38f2796d0e0675167e16a5837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 02/26] fix: compact protocol reads the boolean-false element
 type

---
 lib/go/src/thrift/tcompact_protocol.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 52a80af..2a29230 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -813,8 +813,7 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
 	switch byte(t) & 0x0f {
 	case STOP:
 		return STOP, nil
-	case COMPACT_BOOLEAN_FALSE:
-	case COMPACT_BOOLEAN_TRUE:
+	case COMPACT_BOOLEAN_FALSE, COMPACT_BOOLEAN_TRUE:
 		return BOOL, nil
 	case COMPACT_BYTE:
 		return BYTE, nil
-- 
2.43.0


From fb65db781a70334da7cd3a63e2911586ffd44263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 03/26] fix: compact protocol pops the field id stack when a
 read struct ends

---
 lib/go/src/thrift/tcompact_protocol.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 2a29230..8bed471 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -394,6 +394,7 @@ func (p *TCompactProtocol) ReadStructBegin() (name string, err TProtocolExceptio
 func (p *TCompactProtocol) ReadStructEnd() TProtocolException {
 	// consume the last field we read off the wire.
 	p.lastFieldId = p.lastField[len(p.lastField)-1]
+	p.lastField = p.lastField[:len(p.lastField)-1]
 	return nil
 }
 
-- 
2.43.0


From dcb5f8e79dffa673f813bc19b95de29f52d89688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 04/26] fix: compact protocol keeps all three bits of the
 message type

---
 lib/go/src/thrift/tcompact_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 8bed471..0edc231 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -357,7 +357,7 @@ func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType,
 	}
 	versionAndType, err := p.ReadByte()
 	version := versionAndType & COMPACT_VERSION_MASK
-	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x03)
+	typeId = TMessageType((versionAndType >> COMPACT_TYPE_SHIFT_AMOUNT) & 0x07)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From e4f01c0870615c8c5a9d8e19b346beea0d094cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 05/26] fix: compact protocol writes the binary type as string
 instead of panicking

---
 lib/go/src/thrift/tcompact_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 0edc231..92056a1 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -844,5 +844,5 @@ func (p *TCompactProtocol) getTType(t TCompactType) (TType, error) {
  * Given a TType value, find the appropriate TCompactProtocol.Types constant.
  */
 func (p *TCompactProtocol) getCompactType(t TType) TCompactType {
-	return _TTypeToCompactType[int(t)]
+	return _TTypeToCompactType[int(t.ThriftTypeId())]
 }
-- 
2.43.0


From 556994fb0a8a07606088b0f5403e0f31260bc377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 06/26] fix: compact protocol refuses map headers with an
 unknown type

---
 lib/go/src/thrift/tcompact_protocol.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 92056a1..48e8888 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -463,8 +463,16 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 			return
 		}
 	}
-	keyType, _ = p.getTType(TCompactType(keyAndValueType >> 4))
-	valueType, _ = p.getTType(TCompactType(keyAndValueType & 0xf))
+	keyType, e = p.getTType(TCompactType(keyAndValueType >> 4))
+	if e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+		return
+	}
+	valueType, e = p.getTType(TCompactType(keyAndValueType & 0xf))
+	if e != nil {
+		err = NewTProtocolExceptionFromOsError(e)
+		return
+	}
 	return
 }
 
-- 
2.43.0


From fb592321e8aff206a3fe7f1e8e1b5420144599e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 07/26] fix: compact protocol reports a failure to read the
 body of a binary

---
 lib/go/src/thrift/tcompact_protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 48e8888..f8a568f 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -611,8 +611,8 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 	}
 
 	buf := make([]byte, length)
-	p.trans.ReadAll(buf)
-	return buf, nil
+	_, e = p.trans.ReadAll(buf)
+	return buf, NewTProtocolExceptionFromOsError(e)
 }
 
 func (p *TCompactProtocol) Flush() (err TProtocolException) {
-- 
2.43.0


From 9cecc6c1e980620447a232ef23741a5eb0cb251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 08/26] fix: compact protocol refuses negative binary and
 container sizes

---
 lib/go/src/thrift/tcompact_protocol.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index f8a568f..64d6128 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -456,6 +456,10 @@ func (p *TCompactProtocol) ReadMapBegin() (keyType TType, valueType TType, size
 		err = NewTProtocolExceptionFromOsError(e)
 		return
 	}
+	if size < 0 {
+		err = NewTProtocolException(NEGATIVE_SIZE, "Negative map size")
+		return
+	}
 	keyAndValueType := byte(STOP)
 	if size != 0 {
 		keyAndValueType, err = p.ReadByte()
@@ -497,6 +501,10 @@ func (p *TCompactProtocol) ReadListBegin() (elemType TType, size int, err TProto
 			return
 		}
 		size = int(size2)
+		if size < 0 {
+			err = NewTProtocolException(NEGATIVE_SIZE, "Negative list size")
+			return
+		}
 	}
 	elemType, e := p.getTType(TCompactType(size_and_type))
 	if e != nil {
@@ -609,6 +617,9 @@ func (p *TCompactProtocol) ReadBinary() (value []byte, err TProtocolException) {
 	if length == 0 {
 		return []byte{}, nil
 	}
+	if length < 0 {
+		return []byte{}, NewTProtocolException(NEGATIVE_SIZE, "Negative binary size")
+	}
 
 	buf := make([]byte, length)
 	_, e = p.trans.ReadAll(buf)
-- 
2.43.0


From 832921613b27fbae2532b6310621f19c6f41c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:17 +0000
Subject: [PATCH 09/26] fix: compact ReadMessageBegin reports a failure to read
 the protocol id

---
 lib/go/src/thrift/tcompact_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tcompact_protocol.go b/lib/go/src/thrift/tcompact_protocol.go
index 64d6128..4cf24a5 100644
--- a/lib/go/src/thrift/tcompact_protocol.go
+++ b/lib/go/src/thrift/tcompact_protocol.go
@@ -351,6 +351,9 @@ func (p *TCompactProtocol) WriteBinary(bin []byte) TProtocolException {
  */
 func (p *TCompactProtocol) ReadMessageBegin() (name string, typeId TMessageType, seqId int32, err TProtocolException) {
 	protocolId, err := p.ReadByte()
+	if err != nil {
+		return
+	}
 	if protocolId != COMPACT_PROTOCOL_ID {
 		s := fmt.Sprintf("Expected protocol id %02x but got %02x", COMPACT_PROTOCOL_ID, protocolId)
 		return "", typeId, seqId, NewTProtocolException(BAD_VERSION, s)
-- 
2.43.0


From 38da6bc0181e73de976060a9f31701d7e932a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:09 +0000
Subject: [PATCH 10/26] fix: Skip reports errors, stops at the first one and
 honours its depth limit

---
 lib/go/src/thrift/tprotocol.go | 38 +++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/lib/go/src/thrift/tprotocol.go b/lib/go/src/thrift/tprotocol.go
index 2ea8b97..292e907 100644
--- a/lib/go/src/thrift/tprotocol.go
+++ b/lib/go/src/thrift/tprotocol.go
@@ -118,6 +118,9 @@ func SkipDefaultDepth(prot TProtocol, typeId TType) (err TProtocolException) {
  *   recursive depth, to prevent Java stack overflow.
  */
 func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException) {
+	if maxDepth <= 0 {
+		return NewTProtocolException(SIZE_LIMIT, "Maximum skip depth exceeded")
+	}
 	switch fieldType {
 	case STOP:
 		return
@@ -149,12 +152,21 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 				return
 			}
 			for {
-				_, typeId, _, _ := self.ReadFieldBegin()
+				_, typeId, _, err := self.ReadFieldBegin()
+				if err != nil {
+					return err
+				}
 				if typeId == STOP {
 					break
 				}
-				Skip(self, typeId, maxDepth-1)
-				self.ReadFieldEnd()
+				err = Skip(self, typeId, maxDepth-1)
+				if err != nil {
+					return err
+				}
+				err = self.ReadFieldEnd()
+				if err != nil {
+					return err
+				}
 			}
 			return self.ReadStructEnd()
 		}
@@ -166,8 +178,14 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, keyType, maxDepth-1)
-				self.Skip(valueType)
+				err = Skip(self, keyType, maxDepth-1)
+				if err != nil {
+					return err
+				}
+				err = Skip(self, valueType, maxDepth-1)
+				if err != nil {
+					return err
+				}
 			}
 			return self.ReadMapEnd()
 		}
@@ -179,7 +197,10 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				err = Skip(self, elemType, maxDepth-1)
+				if err != nil {
+					return err
+				}
 			}
 			return self.ReadSetEnd()
 		}
@@ -191,7 +212,10 @@ func Skip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException
 			}
 			size := int(l)
 			for i := 0; i < size; i++ {
-				Skip(self, elemType, maxDepth-1)
+				err = Skip(self, elemType, maxDepth-1)
+				if err != nil {
+					return err
+				}
 			}
 			return self.ReadListEnd()
 		}
-- 
2.43.0


From 8d437fb6c319b5e503881feb46809087a69f6518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:40 +0000
Subject: [PATCH 11/26] fix: ReadAllTransport never reports success for a
 buffer it did not fill

---
 lib/go/src/thrift/ttransport.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/ttransport.go b/lib/go/src/thrift/ttransport.go
index db384c6..cecfaad 100644
--- a/lib/go/src/thrift/ttransport.go
+++ b/lib/go/src/thrift/ttransport.go
@@ -163,14 +163,12 @@ func ReadAllTransport(p TTransport, buf []byte) (n int, err error) {
 	for n < size {
 		ret, err = p.Read(buf[n:])
 		if ret <= 0 {
-			if err != nil {
-				err = NewTTransportExceptionDefaultString("Cannot read. Remote side has closed. Tried to read " + strconv.Itoa(size) + " bytes, but only got " + strconv.Itoa(n) + " bytes.")
-			}
+			err = NewTTransportExceptionDefaultString("Cannot read. Remote side has closed. Tried to read " + strconv.Itoa(size) + " bytes, but only got " + strconv.Itoa(n) + " bytes.")
 			return ret, err
 		}
 		n += ret
 	}
-	return n, err
+	return n, nil
 }
 
 var (
-- 
2.43.0


From 7492e5991d66be86ad522885765d89266d5943eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:22 +0000
Subject: [PATCH 12/26] fix: TFramedTransport.Read reports a failed frame read
 and skips empty frames

---
 lib/go/src/thrift/tframed_transport.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index c1a78d2..9ff5571 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -72,8 +72,12 @@ func (p *TFramedTransport) Read(buf []byte) (int, error) {
 		}
 	}
 
-	// Read another frame of data
-	p.readFrame()
+	// Read another frame of data, passing over empty ones
+	for p.readBuffer.Len() == 0 {
+		if _, err := p.readFrame(); err != nil {
+			return 0, NewTTransportExceptionFromOsError(err)
+		}
+	}
 
 	got, err := p.readBuffer.Read(buf)
 	return got, NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From 34f1e468a0e1fddf52004c89d1ab88f8ab8bee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:22 +0000
Subject: [PATCH 13/26] fix: TFramedTransport refuses frame sizes above 2^31-1

---
 lib/go/src/thrift/tframed_transport.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tframed_transport.go b/lib/go/src/thrift/tframed_transport.go
index 9ff5571..30356b7 100644
--- a/lib/go/src/thrift/tframed_transport.go
+++ b/lib/go/src/thrift/tframed_transport.go
@@ -22,6 +22,7 @@ package thrift
 import (
 	"bytes"
 	"encoding/binary"
+	"strconv"
 )
 
 type TFramedTransport struct {
@@ -117,10 +118,10 @@ func (p *TFramedTransport) readFrame() (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	size := int(binary.BigEndian.Uint32(buf))
+	size := int(int32(binary.BigEndian.Uint32(buf)))
 	if size < 0 {
 		// TODO(pomack) log error
-		return 0, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "Read a negative frame size ("+string(size)+")")
+		return 0, NewTTransportException(UNKNOWN_TRANSPORT_EXCEPTION, "Read a negative frame size ("+strconv.Itoa(size)+")")
 	}
 	if size == 0 {
 		return 0, nil
-- 
2.43.0


From aaba17719fbc739c59bf9fc09a94281110c17a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:52 +0000
Subject: [PATCH 14/26] fix: TIOStreamTransport.Write does not panic when the
 writer takes nothing without an error

---
 lib/go/src/thrift/tiostream_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tiostream_transport.go b/lib/go/src/thrift/tiostream_transport.go
index 0195da5..475633f 100644
--- a/lib/go/src/thrift/tiostream_transport.go
+++ b/lib/go/src/thrift/tiostream_transport.go
@@ -204,7 +204,7 @@ func (p *TIOStreamTransport) Write(buf []byte) (int, error) {
 		return 0, NewTTransportException(NOT_OPEN, "Cannot write to null outputStream")
 	}
 	n, err := p.Writer.Write(buf)
-	if n == 0 || err != nil {
+	if err != nil {
 		LOGGER.Print("Error writing to iostream, only wrote ", n, " bytes: ", err.Error(), "\n")
 	}
 	return n, NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From b722bc04bbd5762ab80c6ae166c3e6acc552921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:52 +0000
Subject: [PATCH 15/26] fix: THttpClient reports not open instead of panicking
 when it has no request buffer

---
 lib/go/src/thrift/thttp_client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/go/src/thrift/thttp_client.go b/lib/go/src/thrift/thttp_client.go
index ddbc74e..4c5e7e6 100644
--- a/lib/go/src/thrift/thttp_client.go
+++ b/lib/go/src/thrift/thttp_client.go
@@ -127,11 +127,17 @@ func (p *THttpClient) ReadAll(buf []byte) (int, error) {
 }
 
 func (p *THttpClient) Write(buf []byte) (int, error) {
+	if p.requestBuffer == nil {
+		return 0, NewTTransportException(NOT_OPEN, "Request buffer is empty, no request.")
+	}
 	n, err := p.requestBuffer.Write(buf)
 	return n, err
 }
 
 func (p *THttpClient) Flush() error {
+	if p.requestBuffer == nil {
+		return NewTTransportException(NOT_OPEN, "Request buffer is empty, no request.")
+	}
 	response, err := http.Post(p.url.String(), "application/x-thrift", p.requestBuffer)
 	if err != nil {
 		return NewTTransportExceptionFromOsError(err)
-- 
2.43.0


From f1c1195792b78855af5137ddf902048d632adbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:52 +0000
Subject: [PATCH 16/26] fix: servers stop processing a connection at the first
 error, also after Stop

---
 lib/go/src/thrift/tnonblocking_server.go | 6 ++----
 lib/go/src/thrift/tsimple_server.go      | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/go/src/thrift/tnonblocking_server.go b/lib/go/src/thrift/tnonblocking_server.go
index 399cfe4..aaa8033 100644
--- a/lib/go/src/thrift/tnonblocking_server.go
+++ b/lib/go/src/thrift/tnonblocking_server.go
@@ -163,10 +163,8 @@ func (p *TNonblockingServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error unless stopped
+			break
 		}
 		if !ok {
 			break
diff --git a/lib/go/src/thrift/tsimple_server.go b/lib/go/src/thrift/tsimple_server.go
index 70a9916..a41ce8c 100644
--- a/lib/go/src/thrift/tsimple_server.go
+++ b/lib/go/src/thrift/tsimple_server.go
@@ -149,10 +149,8 @@ func (p *TSimpleServer) processRequest(client TTransport) {
 	for {
 		ok, e := processor.Process(inputProtocol, outputProtocol)
 		if e != nil {
-			if !p.stopped {
-				// TODO(pomack) log error
-				break
-			}
+			// TODO(pomack) log error unless stopped
+			break
 		}
 		if !ok {
 			break
-- 
2.43.0


From 5bcf4bd16677c4dc057a16c6b0a4c21c5ad1cc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:51 +0000
Subject: [PATCH 17/26] fix: CompareInt64 compares 64-bit integers

---
 lib/go/src/thrift/tcompare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tcompare.go b/lib/go/src/thrift/tcompare.go
index aa41eb3..80d6897 100644
--- a/lib/go/src/thrift/tcompare.go
+++ b/lib/go/src/thrift/tcompare.go
@@ -49,7 +49,7 @@ func CompareInt32(i, j int32) int {
 	return 0
 }
 
-func CompareInt64(i, j int32) int {
+func CompareInt64(i, j int64) int {
 	if i > j {
 		return 1
 	}
-- 
2.43.0


From 81b060c574c9fc4c626198c46194e40ed4b4f01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:10 +0000
Subject: [PATCH 18/26] fix: TApplicationException.Write reports a failure to
 begin the struct

---
 lib/go/src/thrift/tapplication_exception.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/go/src/thrift/tapplication_exception.go b/lib/go/src/thrift/tapplication_exception.go
index 21d38cd..42e00e4 100644
--- a/lib/go/src/thrift/tapplication_exception.go
+++ b/lib/go/src/thrift/tapplication_exception.go
@@ -139,6 +139,9 @@ func (p *tApplicationException) Read(iprot TProtocol) (error TApplicationExcepti
 
 func (p *tApplicationException) Write(oprot TProtocol) (err error) {
 	err = oprot.WriteStructBegin("TApplicationException")
+	if err != nil {
+		return
+	}
 	if len(p.Error()) > 0 {
 		err = oprot.WriteFieldBegin("message", STRING, 1)
 		if err != nil {
-- 
2.43.0


From 18593cd797558891ad0674842182aa84ec508426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:10 +0000
Subject: [PATCH 19/26] fix: TJSONProtocol.WriteBinary reports write failures

---
 lib/go/src/thrift/tjson_protocol.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index 34ab7ca..a7e2e0e 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -187,13 +187,19 @@ func (p *TJSONProtocol) WriteBinary(v []byte) TProtocolException {
 	if e := p.OutputPreValue(); e != nil {
 		return e
 	}
-	p.writer.Write(JSON_QUOTE_BYTES)
+	if _, e := p.writer.Write(JSON_QUOTE_BYTES); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
 	writer := base64.NewEncoder(base64.StdEncoding, p.writer)
 	if _, e := writer.Write(v); e != nil {
 		return NewTProtocolExceptionFromOsError(e)
 	}
-	writer.Close()
-	p.writer.Write(JSON_QUOTE_BYTES)
+	if e := writer.Close(); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
+	if _, e := p.writer.Write(JSON_QUOTE_BYTES); e != nil {
+		return NewTProtocolExceptionFromOsError(e)
+	}
 	return p.OutputPostValue()
 }
 
-- 
2.43.0


From e67191457e224d86d0f180a6a791be3fabd74d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:10 +0000
Subject: [PATCH 20/26] fix: JSON type names of I16 and BINARY

---
 lib/go/src/thrift/tjson_protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index a7e2e0e..cc09da8 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -495,7 +495,7 @@ func (p *TJSONProtocol) TypeIdToString(fieldType TType) string {
 		return "lst"
 	case ENUM:
 		return "i32"
-	case UTF16:
+	case UTF16, BINARY:
 		return "str"
 	case GENERIC:
 		return "gen"
@@ -515,7 +515,7 @@ func (p *TJSONProtocol) StringToTypeId(fieldType string) TType {
 		return TType(BYTE)
 	case "dbl":
 		return TType(DOUBLE)
-	case "16":
+	case "i16":
 		return TType(I16)
 	case "i32":
 		return TType(I32)
-- 
2.43.0


From b11863c6376b95f570e4a174fab6cce0af49989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:10 +0000
Subject: [PATCH 21/26] fix: the JSON protocol refuses unknown types and type
 names

---
 lib/go/src/thrift/tjson_protocol.go | 39 +++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/lib/go/src/thrift/tjson_protocol.go b/lib/go/src/thrift/tjson_protocol.go
index cc09da8..f25395a 100644
--- a/lib/go/src/thrift/tjson_protocol.go
+++ b/lib/go/src/thrift/tjson_protocol.go
@@ -106,7 +106,7 @@ func (p *TJSONProtocol) WriteFieldBegin(name string, typeId TType, id int16) TPr
 	if e := p.OutputObjectBegin(); e != nil {
 		return e
 	}
-	if e := p.WriteString(p.TypeIdToString(typeId)); e != nil {
+	if e := p.writeTypeName(typeId); e != nil {
 		return e
 	}
 	return nil
@@ -122,10 +122,10 @@ func (p *TJSONProtocol) WriteMapBegin(keyType TType, valueType TType, size int)
 	if e := p.OutputListBegin(); e != nil {
 		return e
 	}
-	if e := p.WriteString(p.TypeIdToString(keyType)); e != nil {
+	if e := p.writeTypeName(keyType); e != nil {
 		return e
 	}
-	if e := p.WriteString(p.TypeIdToString(valueType)); e != nil {
+	if e := p.writeTypeName(valueType); e != nil {
 		return e
 	}
 	return p.WriteI64(int64(size))
@@ -261,8 +261,7 @@ func (p *TJSONProtocol) ReadFieldBegin() (string, TType, int16, TProtocolExcepti
 	if _, err = p.ParseObjectStart(); err != nil {
 		return "", STOP, fieldId, err
 	}
-	sType, err := p.ReadString()
-	fType := p.StringToTypeId(sType)
+	fType, err := p.readTypeName()
 	return "", fType, fieldId, err
 }
 
@@ -276,16 +275,12 @@ func (p *TJSONProtocol) ReadMapBegin() (keyType TType, valueType TType, size int
 	}
 
 	// read keyType
-	sKeyType, e := p.ReadString()
-	keyType = p.StringToTypeId(sKeyType)
-	if e != nil {
+	if keyType, e = p.readTypeName(); e != nil {
 		return keyType, valueType, size, e
 	}
 
 	// read valueType
-	sValueType, e := p.ReadString()
-	valueType = p.StringToTypeId(sValueType)
-	if e != nil {
+	if valueType, e = p.readTypeName(); e != nil {
 		return keyType, valueType, size, e
 	}
 
@@ -438,6 +433,28 @@ func (p *TJSONProtocol) Transport() TTransport {
 	return p.trans
 }
 
+// writeTypeName writes the name of a type; a type without a name is refused.
+func (p *TJSONProtocol) writeTypeName(fieldType TType) TProtocolException {
+	name := p.TypeIdToString(fieldType)
+	if name == "" {
+		return NewTProtocolException(INVALID_DATA, fmt.Sprint("No JSON name for type ", byte(fieldType)))
+	}
+	return p.WriteString(name)
+}
+
+// readTypeName reads the name of a type; an unknown name is refused.
+func (p *TJSONProtocol) readTypeName() (TType, TProtocolException) {
+	name, e := p.ReadString()
+	if e != nil {
+		return STOP, e
+	}
+	fieldType := p.StringToTypeId(name)
+	if fieldType == STOP && name != p.TypeIdToString(STOP) {
+		return STOP, NewTProtocolException(INVALID_DATA, "Unknown type name "+name)
+	}
+	return fieldType, nil
+}
+
 func (p *TJSONProtocol) readElemListBegin() (elemType TType, size int, e TProtocolException) {
 	if isNull, e := p.ParseListBegin(); isNull || e != nil {
 		return VOID, 0, e
-- 
2.43.0


From b87725041a1e52f52234b8d9944c211398e615ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:35 +0000
Subject: [PATCH 22/26] fix: setting the element one past the end of a list
 appends it

---
 lib/go/src/thrift/tlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tlist.go b/lib/go/src/thrift/tlist.go
index 6fb4184..932d189 100644
--- a/lib/go/src/thrift/tlist.go
+++ b/lib/go/src/thrift/tlist.go
@@ -74,7 +74,7 @@ func (p *tList) Set(i int, data interface{}) {
 		p.elemType = TypeFromValue(data)
 	}
 	if data, ok := p.elemType.CoerceData(data); ok {
-		if len(p.l) >= i {
+		if i < len(p.l) {
 			p.l[i] = data
 		} else {
 			p.l = append(p.l, data)
-- 
2.43.0


From 08d24d7b1fde15ac0629b469a2b43c75a0980594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:37 +0000
Subject: [PATCH 23/26] fix: a missing key of a map with bool keys is reported
 as missing

---
 lib/go/src/thrift/tmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 824a339..3df1b0a 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -156,7 +156,7 @@ func (p *tMap) Get(key interface{}) (interface{}, bool) {
 		if v, ok := m[useKey.(bool)]; ok {
 			return v, true
 		}
-		return nil, true
+		return nil, false
 	case BYTE:
 		m := p.i08
 		if v, ok := m[useKey.(byte)]; ok {
-- 
2.43.0


From bd163a0fb4fd84dd8a9426b4a550c255e7fe4331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:39 +0000
Subject: [PATCH 24/26] fix: an empty set has the length zero

---
 lib/go/src/thrift/tset.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index ec9a29b..c3fb619 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -67,10 +67,7 @@ func (p *tSet) Back() *list.Element {
 }
 
 func (p *tSet) Len() int {
-	if p.l.Len() != 0 {
-		return p.l.Len()
-	}
-	return p.size
+	return p.l.Len()
 }
 
 func (p *tSet) Contains(data interface{}) bool {
-- 
2.43.0


From 80d614cde7f461e4a09bd71552dbbda9b851969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:41 +0000
Subject: [PATCH 25/26] fix: an element smaller than all others is added to a
 set

---
 lib/go/src/thrift/tset.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/go/src/thrift/tset.go b/lib/go/src/thrift/tset.go
index c3fb619..5931623 100644
--- a/lib/go/src/thrift/tset.go
+++ b/lib/go/src/thrift/tset.go
@@ -87,6 +87,7 @@ func (p *tSet) Add(other interface{}) {
 					return
 				}
 			}
+			p.l.PushBack(data)
 		}
 	}
 }
-- 
2.43.0


From bbd906de0c62728e3b3a0c4de4d81f52e2947c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:04 +0000
Subject: [PATCH 26/26] fix: an empty map whose keys are kept in a list has the
 length zero

---
 lib/go/src/thrift/tmap.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/go/src/thrift/tmap.go b/lib/go/src/thrift/tmap.go
index 3df1b0a..b69d203 100644
--- a/lib/go/src/thrift/tmap.go
+++ b/lib/go/src/thrift/tmap.go
@@ -119,10 +119,8 @@ func (p *tMap) Len() int {
 		return len(p.f64)
 	case STRING, UTF8, UTF16:
 		return len(p.s)
-	default:
-		return p.size
 	}
-	return p.size
+	return 0
 }
 
 func (p *tMap) Get(key interface{}) (interface{}, bool) {
-- 
2.43.0

