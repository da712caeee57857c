From 2ecaac7b16c9a7a4acead1812b2fd792342b5301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 01/32] fix: UNSUBSCRIBE decoding lost topics by counting one
 byte too many per topic

---
 mqttp/unsubscribe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index c56ef2b..bf60239 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -91,7 +91,7 @@ func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
 
 		msg.topics = append(msg.topics, topic)
 
-		remLen = remLen - n - 1
+		remLen -= n
 	}
 
 	// [MQTT-3.10.3-2]
-- 
2.43.0


From ae3f45d118e529591504f34115ce8d3aee0f45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 02/32] fix: UNSUBSCRIBE encoding omitted the v5 properties
 field

---
 mqttp/unsubscribe.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index bf60239..ea35d61 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -121,6 +121,15 @@ func (msg *UnSubscribe) encodeMessage(dst []byte) (int, error) {
 
 	total := msg.encodePacketID(dst)
 
+	// V5.0   [MQTT-3.10.2.1]
+	if msg.version == ProtocolV50 {
+		n, err = msg.properties.encode(dst[total:])
+		total += n
+		if err != nil {
+			return total, err
+		}
+	}
+
 	for _, t := range msg.topics {
 		n, err = WriteLPBytes(dst[total:], t.full)
 		total += n
@@ -142,6 +151,11 @@ func (msg *UnSubscribe) size() int {
 	// packet ID
 	total := 2
 
+	// v5.0 [MQTT-3.10.2.1]
+	if msg.version == ProtocolV50 {
+		total += msg.properties.FullLen()
+	}
+
 	for _, t := range msg.topics {
 		total += 2 + len(t.full)
 	}
-- 
2.43.0


From d116f06bd0aa137df16f06a68fa46a101c4ef7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 03/32] fix: AUTH encoding overwrote the reason code with the
 properties

---
 mqttp/auth.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index 1806bbd..7d1ac2a 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -90,6 +90,7 @@ func (msg *Auth) decodeMessage(from []byte) (int, error) {
 func (msg *Auth) encodeMessage(to []byte) (int, error) {
 	offset := 0
 	to[offset] = byte(msg.authReason)
+	offset++
 	n, err := msg.properties.encode(to[offset:])
 
 	return offset + n, err
-- 
2.43.0


From 943a9b94ac8265c3a385927f498a8e97e57ab841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 04/32] fix: zero property length was never written to the
 buffer

---
 mqttp/property.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 4940c15..08691be 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -438,10 +438,6 @@ func (p *property) encode(to []byte) (int, error) {
 		return 0, ErrInsufficientBufferSize
 	}
 
-	if pLen == 1 {
-		return 1, nil
-	}
-
 	var offset int
 	var err error
 	// Encode variable length header
-- 
2.43.0


From 1460b97cf2c0616091f027b95c412318b6705145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 05/32] fix: Auth.SetReasonCode validated the old reason code
 instead of the new one

---
 mqttp/auth.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index 7d1ac2a..6a5192a 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -48,8 +48,8 @@ func (msg *Auth) ReasonCode() ReasonCode {
 
 // SetReasonCode set authentication reason code
 func (msg *Auth) SetReasonCode(c ReasonCode) error {
-	if msg.authReason.IsValidForType(msg.mType) {
-		return ErrInvalidMessageType
+	if !c.IsValidForType(msg.mType) {
+		return ErrInvalidReturnCode
 	}
 
 	msg.authReason = c
-- 
2.43.0


From 93c9fa550ee276c7b4c6c9a4550232ea8f1023ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 06/32] fix: property values of a wrong type were accepted and
 made encoding panic

---
 mqttp/property.go | 52 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 08691be..d7a9f34 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -178,6 +178,9 @@ const (
 	PropertyTypeBinary
 )
 
+// maxVarInt maximum value of the variable byte integer
+const maxVarInt = uint32(maxRemainingLength)
+
 // propertyAllowedMessageTypes properties and their supported packets type.
 // bool flag indicates either duplicate allowed or not
 var propertyAllowedMessageTypes = map[PropertyID]map[Type]bool{
@@ -348,12 +351,35 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 		return ErrPropertyPacketTypeMismatch
 	}
 
-	fn := propertyCalcLen[propertyTypeMap[id]]
+	pType := propertyTypeMap[id]
+
+	// list of values is allowed only if packet may carry property more than once
+	if isPropertyList(pType, val) && !id.DupAllowed(t) {
+		return ErrPropertyTypeMismatch
+	}
+
+	fn := propertyCalcLen[pType]
 	l, err := fn(id, val)
+	if err != nil {
+		return err
+	}
+
 	p.len += l
 	p.properties[id] = val
 
-	return err
+	return nil
+}
+
+// isPropertyList check either value contains list of values of the given type
+func isPropertyList(t PropertyType, val interface{}) bool {
+	switch val.(type) {
+	case []byte:
+		return t != PropertyTypeBinary
+	case []uint16, []uint32, []string, []StringPair, [][]byte:
+		return true
+	}
+
+	return false
 }
 
 // Get property value
@@ -470,7 +496,7 @@ func calcLenByte(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -491,7 +517,7 @@ func calcLenShort(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -512,7 +538,7 @@ func calcLenInt(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -527,13 +553,19 @@ func calcLenVarInt(id PropertyID, val interface{}) (int, error) {
 
 	switch valueType := val.(type) {
 	case uint32:
+		if valueType > maxVarInt {
+			return 0, ErrPropertyTypeMismatch
+		}
 		l = calc(valueType)
 	case []uint32:
 		for _, v := range valueType {
+			if v > maxVarInt {
+				return 0, ErrPropertyTypeMismatch
+			}
 			l += calc(v)
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -554,7 +586,7 @@ func calcLenString(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -570,12 +602,12 @@ func calcLenBinary(id PropertyID, val interface{}) (int, error) {
 	switch valueType := val.(type) {
 	case []byte:
 		l = calc(len(valueType))
-	case [][]string:
+	case [][]byte:
 		for _, v := range valueType {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -596,7 +628,7 @@ func calcLenStringPair(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v.K), len(v.V))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
-- 
2.43.0


From 8f4e2279b0696874343eba81a52f905807f193a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 07/32] fix: setting a property twice counted its length twice

---
 mqttp/property.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index d7a9f34..3353253 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -364,6 +364,12 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 		return err
 	}
 
+	// new value replaces previous one
+	if old, ok := p.properties[id]; ok {
+		oldLen, _ := fn(id, old)
+		p.len -= oldLen
+	}
+
 	p.len += l
 	p.properties[id] = val
 
-- 
2.43.0


From bdb9a346504f128ecc22a99b68e2591fffb00cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 08/32] fix: setting a property panicked on a packet switched
 to V5.0 by SetVersion

---
 mqttp/property.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index 3353253..140a2b2 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -364,6 +364,11 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 		return err
 	}
 
+	// packet created with prior to V5.0 version does not have properties allocated
+	if p.properties == nil {
+		p.reset()
+	}
+
 	// new value replaces previous one
 	if old, ok := p.properties[id]; ok {
 		oldLen, _ := fn(id, old)
-- 
2.43.0


From 6672792d8ce9a84b048b084a7fc72aeba248355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 09/32] fix: all but the last subscription identifier of a
 PUBLISH were lost while still counted

---
 mqttp/property.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 140a2b2..7a3560d 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -59,6 +59,7 @@ type PropertyToType interface {
 	AsByte() (byte, error)
 	AsShort() (uint16, error)
 	AsInt() (uint32, error)
+	AsInts() ([]uint32, error)
 	AsString() (string, error)
 	AsStringPair() (StringPair, error)
 	AsStringPairs() ([]StringPair, error)
@@ -100,6 +101,17 @@ func (t *propertyToType) AsInt() (uint32, error) {
 	return 0, ErrPropertyWrongType
 }
 
+func (t *propertyToType) AsInts() ([]uint32, error) {
+	switch v := t.v.(type) {
+	case []uint32:
+		return v, nil
+	case uint32:
+		return []uint32{v}, nil
+	}
+
+	return []uint32{}, ErrPropertyWrongType
+}
+
 func (t *propertyToType) AsString() (string, error) {
 	if v, ok := t.v.(string); ok {
 		return v, nil
@@ -694,7 +706,14 @@ func decodeVarInt(p *property, id PropertyID, from []byte) (int, error) {
 	}
 	offset += cnt
 
-	p.properties[id] = v
+	switch prev := p.properties[id].(type) {
+	case uint32:
+		p.properties[id] = []uint32{prev, v}
+	case []uint32:
+		p.properties[id] = append(prev, v)
+	default:
+		p.properties[id] = v
+	}
 
 	return offset, nil
 }
-- 
2.43.0


From d3dcbdaa18258d233fc3fbf107e7f37b11ce13e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 10/32] fix: V5.0 failure codes of SUBACK and UNSUBACK were
 refused, undefined ones of UNSUBACK accepted

---
 mqttp/suback.go   |  6 ++++--
 mqttp/unsuback.go | 14 ++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/mqttp/suback.go b/mqttp/suback.go
index 1ed7f89..488deb5 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -87,8 +87,10 @@ func (msg *SubAck) decodeMessage(from []byte) (int, error) {
 
 	for i, q := range from[offset : offset+numCodes] {
 		code := ReasonCode(q)
-		if msg.version == ProtocolV50 && !code.IsValidForType(msg.mType) {
-			return offset + i, CodeProtocolError
+		if msg.version == ProtocolV50 {
+			if !code.IsValidForType(msg.mType) {
+				return offset + i, CodeProtocolError
+			}
 		} else if !QosType(code).IsValidFull() {
 			return offset + i, CodeRefusedServerUnavailable
 		}
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index e6eda4e..d45fa18 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -51,8 +51,10 @@ func (msg *UnSubAck) ReturnCodes() []ReasonCode {
 // An error is returned if any of the QoS values are not valid.
 func (msg *UnSubAck) AddReturnCodes(ret []ReasonCode) error {
 	for _, c := range ret {
-		if msg.version == ProtocolV50 && !c.IsValidForType(msg.mType) {
-			return ErrInvalidReturnCode
+		if msg.version == ProtocolV50 {
+			if !c.IsValidForType(msg.mType) {
+				return ErrInvalidReturnCode
+			}
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
@@ -79,8 +81,12 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 			return offset, err
 		}
 
-		for _, c := range from[offset:msg.remLen] {
-			msg.returnCodes = append(msg.returnCodes, ReasonCode(c))
+		for i, c := range from[offset:msg.remLen] {
+			code := ReasonCode(c)
+			if !code.IsValidForType(msg.mType) {
+				return offset + i, CodeProtocolError
+			}
+			msg.returnCodes = append(msg.returnCodes, code)
 		}
 	}
 
-- 
2.43.0


From 029f99618faaeb32c8520793289a08b48770268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:01 +0000
Subject: [PATCH 11/32] fix: incomplete and zero packet identifiers were
 decoded and emitted

---
 mqttp/header.go      | 18 ++++++++++++++++--
 mqttp/puback.go      |  7 +++++--
 mqttp/publish.go     |  8 ++++++--
 mqttp/suback.go      |  7 +++++--
 mqttp/subscribe.go   |  7 +++++--
 mqttp/unsuback.go    |  7 +++++--
 mqttp/unsubscribe.go |  7 +++++--
 7 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index c726b3e..9e3972d 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -196,12 +196,26 @@ func (h *header) setPacketID(id IDType) {
 	binary.BigEndian.PutUint16(h.packetID, uint16(id))
 }
 
-func (h *header) decodePacketID(src []byte) int {
+// decodePacketID reads packet id which must be complete and non-zero
+func (h *header) decodePacketID(src []byte) (int, error) {
+	if len(src) < 2 || binary.BigEndian.Uint16(src) == 0 {
+		if h.version == ProtocolV50 {
+			return 0, CodeMalformedPacket
+		}
+
+		return 0, CodeRefusedServerUnavailable
+	}
+
 	if len(h.packetID) == 0 {
 		h.packetID = make([]byte, 2)
 	}
 
-	return copy(h.packetID, src)
+	return copy(h.packetID, src), nil
+}
+
+// hasPacketID check either non-zero packet id has been set
+func (h *header) hasPacketID() bool {
+	return len(h.packetID) == 2 && binary.BigEndian.Uint16(h.packetID) != 0
 }
 
 func (h *header) encodePacketID(dst []byte) int {
diff --git a/mqttp/puback.go b/mqttp/puback.go
index ba25a8c..a45604f 100644
--- a/mqttp/puback.go
+++ b/mqttp/puback.go
@@ -77,7 +77,10 @@ func (msg *Ack) Reason() ReasonCode {
 }
 
 func (msg *Ack) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		// [MQTT-3.4.2.1]
@@ -107,7 +110,7 @@ func (msg *Ack) decodeMessage(from []byte) (int, error) {
 
 func (msg *Ack) encodeMessage(to []byte) (int, error) {
 	// [MQTT-2.3.1]
-	if len(msg.packetID) == 0 {
+	if !msg.hasPacketID() {
 		return 0, ErrPackedIDZero
 	}
 
diff --git a/mqttp/publish.go b/mqttp/publish.go
index bee470d..2e86297 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -298,7 +298,11 @@ func (msg *Publish) decodeMessage(from []byte) (int, error) {
 	// The packet identifier field is only present in the PUBLISH packets where the
 	// QoS level is 1 or 2
 	if msg.QoS() != QoS0 {
-		offset += msg.decodePacketID(from[offset:])
+		n, err = msg.decodePacketID(from[offset:])
+		offset += n
+		if err != nil {
+			return offset, err
+		}
 	}
 
 	if msg.version == ProtocolV50 {
@@ -377,7 +381,7 @@ func (msg *Publish) encodeMessage(to []byte) (int, error) {
 	}
 
 	// [MQTT-2.3.1]
-	if msg.QoS() != QoS0 && len(msg.packetID) == 0 {
+	if msg.QoS() != QoS0 && !msg.hasPacketID() {
 		return 0, ErrPackedIDZero
 	}
 
diff --git a/mqttp/suback.go b/mqttp/suback.go
index 488deb5..1a9bf92 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -73,7 +73,10 @@ func (msg *SubAck) SetPacketID(v IDType) {
 
 // decode message
 func (msg *SubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
@@ -104,7 +107,7 @@ func (msg *SubAck) decodeMessage(from []byte) (int, error) {
 
 func (msg *SubAck) encodeMessage(to []byte) (int, error) {
 	// [MQTT-2.3.1]
-	if len(msg.packetID) == 0 {
+	if !msg.hasPacketID() {
 		return 0, ErrPackedIDZero
 	}
 
diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index 70dcd59..e912b95 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -71,7 +71,10 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 		return 0, CodeProtocolError
 	}
 
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	// v5 [MQTT-3.1.2.11] specifies properties in variable header
 	if msg.version == ProtocolV50 {
@@ -136,7 +139,7 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 
 func (msg *Subscribe) encodeMessage(to []byte) (int, error) {
 	// [MQTT-2.3.1]
-	if len(msg.packetID) == 0 {
+	if !msg.hasPacketID() {
 		return 0, ErrPackedIDZero
 	}
 
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index d45fa18..737d093 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -72,7 +72,10 @@ func (msg *UnSubAck) AddReturnCode(ret ReasonCode) error {
 
 // decode message
 func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 && (int(msg.remLen)-offset) > 0 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
@@ -95,7 +98,7 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 
 func (msg *UnSubAck) encodeMessage(to []byte) (int, error) {
 	// [MQTT-2.3.1]
-	if len(msg.packetID) == 0 {
+	if !msg.hasPacketID() {
 		return 0, ErrPackedIDZero
 	}
 
diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index ea35d61..eb4c68f 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -62,7 +62,10 @@ func (msg *UnSubscribe) SetPacketID(v IDType) {
 // when io.Reader returns EOF or error. The first return value is the number of
 // bytes read from io.Reader. The second is error if decode encounters any problems.
 func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	remLen := int(msg.remLen) - offset
 
@@ -108,7 +111,7 @@ func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
 
 func (msg *UnSubscribe) encodeMessage(dst []byte) (int, error) {
 	// [MQTT-2.3.1]
-	if len(msg.packetID) == 0 {
+	if !msg.hasPacketID() {
 		return 0, ErrPackedIDZero
 	}
 
-- 
2.43.0


From 6ad7370553aa8868299b730e66dfe3d573a2beec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 12/32] fix: CONNACK and PUBACK lacked defined codes, CONNACK
 mixed codes of different versions

---
 mqttp/connack.go     | 13 +++++++++++--
 mqttp/reasonCodes.go |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/mqttp/connack.go b/mqttp/connack.go
index da1444c..e7a7ead 100644
--- a/mqttp/connack.go
+++ b/mqttp/connack.go
@@ -61,7 +61,7 @@ func (msg *ConnAck) ReturnCode() ReasonCode {
 
 // SetReturnCode of conn
 func (msg *ConnAck) SetReturnCode(ret ReasonCode) error {
-	if !ret.IsValidForType(msg.Type()) {
+	if !msg.validReturnCode(ret) {
 		return ErrInvalidReturnCode
 	}
 
@@ -70,6 +70,15 @@ func (msg *ConnAck) SetReturnCode(ret ReasonCode) error {
 	return nil
 }
 
+// validReturnCode check either code is defined by the protocol version used by the packet
+func (msg *ConnAck) validReturnCode(c ReasonCode) bool {
+	if msg.version == ProtocolV50 {
+		return c.IsValidV5() && c.IsValidForType(msg.mType)
+	}
+
+	return c.IsValidV3()
+}
+
 func (msg *ConnAck) decodeMessage(from []byte) (int, error) {
 	offset := 0
 
@@ -92,7 +101,7 @@ func (msg *ConnAck) decodeMessage(from []byte) (int, error) {
 	b = from[offset]
 	msg.returnCode = ReasonCode(b)
 
-	if !msg.returnCode.IsValidForType(msg.mType) {
+	if !msg.validReturnCode(msg.returnCode) {
 		reason := CodeRefusedServerUnavailable
 		if msg.version == ProtocolV50 {
 			reason = CodeProtocolError
diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 0c39ea6..4ce7491 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -76,6 +76,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeRefusedNotAuthorized:               {iss: CodeIssuerClient, desc: "The Client is not authorized to connect"},
 		CodeUnspecifiedError:                   {iss: CodeIssuerServer, desc: "The Server does not wish to reveal the reason for the failure, or none of the other Return Codes apply"},
 		CodeMalformedPacket:                    {iss: CodeIssuerServer, desc: "Data within the CONNECT Packet was not consistent with this specification"},
+		CodeProtocolError:                      {iss: CodeIssuerServer, desc: "Data in the CONNECT Packet does not conform to this specification"},
 		CodeImplementationSpecificError:        {iss: CodeIssuerServer, desc: "The CONNECT is valid but is not accepted by this Server"},
 		CodeUnsupportedProtocol:                {iss: CodeIssuerServer, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
 		CodeInvalidClientID:                    {iss: CodeIssuerServer, desc: "The Client Identifier is a valid string but is not allowed by the Server"},
@@ -101,6 +102,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeImplementationSpecificError: {iss: CodeIssuerBoth, desc: "The PUBLISH is valid but the receiver is not willing to accept it"},
 		CodeNotAuthorized:               {iss: CodeIssuerBoth, desc: "The PUBLISH is not authorized"},
 		CodeInvalidTopicName:            {iss: CodeIssuerBoth, desc: "The topic name is valid, but is not accepted"},
+		CodePacketIDInUse:               {iss: CodeIssuerBoth, desc: "The IDType is already in use. Possible mismatch in the session state between the Client and Server"},
 		CodeQuotaExceeded:               {iss: CodeIssuerBoth, desc: "An implementation imposed limit has been exceeded"},
 		CodeInvalidPayloadFormat:        {iss: CodeIssuerBoth, desc: "The payload format does not match the one specified in the Payload Format Indicator"},
 	},
-- 
2.43.0


From 08200a119c3830218a82f023ea18e7d71724af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 13/32] fix: issuers of reason codes were indistinguishable and
 reported with inverted errors

---
 mqttp/reasonCodes.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 4ce7491..c12dc49 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -8,7 +8,7 @@ type CodeIssuer byte
 
 // nolint: golint
 const (
-	CodeIssuerServer CodeIssuer = 0x00
+	CodeIssuerServer CodeIssuer = iota
 	CodeIssuerClient
 	CodeIssuerBoth
 	CodeIssuerInvalid
@@ -69,11 +69,11 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 }{
 	CONNACK: {
 		CodeSuccess:                            {iss: CodeIssuerServer, desc: "The Connection is accepted"},
-		CodeRefusedUnacceptableProtocolVersion: {iss: CodeIssuerClient, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
-		CodeRefusedIdentifierRejected:          {iss: CodeIssuerClient, desc: "The Client identifier is not allowed"},
-		CodeRefusedServerUnavailable:           {iss: CodeIssuerClient, desc: "Server refused connection"},
-		CodeRefusedBadUsernameOrPassword:       {iss: CodeIssuerClient, desc: "The data in the user name or password is malformed"},
-		CodeRefusedNotAuthorized:               {iss: CodeIssuerClient, desc: "The Client is not authorized to connect"},
+		CodeRefusedUnacceptableProtocolVersion: {iss: CodeIssuerServer, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
+		CodeRefusedIdentifierRejected:          {iss: CodeIssuerServer, desc: "The Client identifier is not allowed"},
+		CodeRefusedServerUnavailable:           {iss: CodeIssuerServer, desc: "Server refused connection"},
+		CodeRefusedBadUsernameOrPassword:       {iss: CodeIssuerServer, desc: "The data in the user name or password is malformed"},
+		CodeRefusedNotAuthorized:               {iss: CodeIssuerServer, desc: "The Client is not authorized to connect"},
 		CodeUnspecifiedError:                   {iss: CodeIssuerServer, desc: "The Server does not wish to reveal the reason for the failure, or none of the other Return Codes apply"},
 		CodeMalformedPacket:                    {iss: CodeIssuerServer, desc: "Data within the CONNECT Packet was not consistent with this specification"},
 		CodeProtocolError:                      {iss: CodeIssuerServer, desc: "Data in the CONNECT Packet does not conform to this specification"},
@@ -251,10 +251,10 @@ func (c ReasonCode) PacketTypeDir(p Type) (CodeIssuer, error) {
 	}
 
 	if issuer, kk := pT[c]; kk {
-		return issuer.iss, ErrInvalidReturnCode
+		return issuer.iss, nil
 	}
 
-	return CodeIssuerInvalid, nil
+	return CodeIssuerInvalid, ErrInvalidReturnCode
 }
 
 // Value convert reason code to byte type
-- 
2.43.0


From 59c8917204e4fe0abd15144f612e37c7c25be728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 14/32] fix: Connect.SetCredentials validated the previous
 credentials and kept stale ones

---
 mqttp/connect.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 6b2c6be..9aca9d8 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -162,18 +162,22 @@ func (msg *Connect) Credentials() ([]byte, []byte) {
 
 // SetCredentials set username and password
 func (msg *Connect) SetCredentials(u []byte, p []byte) error {
-	msg.connectFlags &= ^maskConnFlagUsername
-	msg.connectFlags &= ^maskConnFlagPassword
-
 	// MQTT 3.1.1 does not allow password without user name
-	if (len(msg.username) == 0 && len(msg.password) != 0) && msg.version < ProtocolV50 {
+	if (len(u) == 0 && len(p) != 0) && msg.version < ProtocolV50 {
 		return ErrInvalidArgs
 	}
 
+	// [MQTT-3.1.3-11]
+	if !IsValidUTF(u) {
+		return ErrInvalidUtf8
+	}
+
+	msg.connectFlags &= ^maskConnFlagUsername
+	msg.connectFlags &= ^maskConnFlagPassword
+	msg.username = nil
+	msg.password = nil
+
 	if len(u) != 0 {
-		if !utf8.Valid(u) {
-			return ErrInvalidUtf8
-		}
 		msg.connectFlags |= maskConnFlagUsername
 		msg.username = u
 	}
-- 
2.43.0


From 4152c70f33b12e7d3e8b4440cde2a7b5254644c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 15/32] fix: Publish.Clone ignored the requested protocol
 version

---
 mqttp/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index 2e86297..a6c70c6 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -71,7 +71,7 @@ func (msg *Publish) Expired() (time.Time, uint32, bool) {
 // qos, topic, payload, retain and properties
 func (msg *Publish) Clone(v ProtocolVersion) (*Publish, error) {
 	// message version should be same as session as encode/decode depends on it
-	pkt := NewPublish(msg.version)
+	pkt := NewPublish(v)
 
 	// [MQTT-3.3.1-9]
 	// [MQTT-3.3.1-3]
-- 
2.43.0


From 69d87b76ececa10eca4029c1fbdd4af2aeac9821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 16/32] fix: PUBLISH without topic and topic alias was emitted

---
 mqttp/publish.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index a6c70c6..9824554 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -367,11 +367,26 @@ func (msg *Publish) decodeMessage(from []byte) (int, error) {
 	return offset, nil
 }
 
+// hasTopicAlias check either packet carries valid topic alias
+func (msg *Publish) hasTopicAlias() bool {
+	if prop := msg.PropertyGet(PropertyTopicAlias); prop != nil {
+		val, err := prop.AsShort()
+		return err == nil && val > 0
+	}
+
+	return false
+}
+
 func (msg *Publish) encodeMessage(to []byte) (int, error) {
 	if !ValidTopic([]byte(msg.topic)) {
 		return 0, ErrInvalidTopic
 	}
 
+	// topic might be omitted only if topic alias is provided
+	if len(msg.topic) == 0 && !msg.hasTopicAlias() {
+		return 0, ErrInvalidTopic
+	}
+
 	if !msg.QoS().IsValid() {
 		return 0, ErrInvalidQoS
 	}
-- 
2.43.0


From e1ed336fde7b7434d91167d3e02778c1e4421fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 17/32] fix: size of packets of 4GiB and more was truncated to
 32 bits before being checked

---
 mqttp/header.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index 9e3972d..c853e9a 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -148,6 +148,10 @@ func (h *header) SetVersion(v ProtocolVersion) {
 func (h *header) Size() (int, error) {
 	ml := h.cb.size()
 
+	if ml > int(maxRemainingLength) {
+		return 0, ErrInvalidLength
+	}
+
 	if err := h.setRemainingLength(int32(ml)); err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 8c692dcc064d90ef5f9c8fb11054fee4f4cee7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 18/32] fix: SUBSCRIBE accepted retain handling 3 and No Local
 on a shared subscription

---
 mqttp/types.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mqttp/types.go b/mqttp/types.go
index 02b04c6..ef1f357 100644
--- a/mqttp/types.go
+++ b/mqttp/types.go
@@ -105,11 +105,21 @@ func NewSubscribeTopic(topic []byte, ops SubscriptionOptions) (*Topic, error) {
 		return nil, CodeProtocolError
 	}
 
+	// V5.0 [MQTT-3.8.3.1] it is a protocol error to send retain handling value of 3
+	if ops.RetainHandling() > 2 {
+		return nil, CodeProtocolError
+	}
+
 	t, err := NewTopic(topic)
 	if err != nil {
 		return nil, err
 	}
 
+	// V5.0 [MQTT-3.8.3-4] No Local is not allowed for shared subscription
+	if len(t.shareName) != 0 && ops.NL() {
+		return nil, CodeProtocolError
+	}
+
 	t.ops = ops
 
 	return t, nil
-- 
2.43.0


From 8a35af379e2a340566f1c7433c56243a4bfa3b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 19/32] fix: SUBSCRIBE without topics was emitted

---
 mqttp/subscribe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index e912b95..def23c3 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -143,6 +143,11 @@ func (msg *Subscribe) encodeMessage(to []byte) (int, error) {
 		return 0, ErrPackedIDZero
 	}
 
+	// [MQTT-3.8.3-3]
+	if len(msg.topics) == 0 {
+		return 0, ErrInvalidLength
+	}
+
 	offset := msg.encodePacketID(to)
 
 	// V5.0   [MQTT-3.1.2.11]
-- 
2.43.0


From 251420fd66a093d72eda5a3c5418c503201e4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 20/32] fix: several errors had no description or that of
 another error

---
 mqttp/errors.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mqttp/errors.go b/mqttp/errors.go
index 5f58331..1418be1 100644
--- a/mqttp/errors.go
+++ b/mqttp/errors.go
@@ -101,6 +101,16 @@ func (e Error) Error() string {
 	case ErrInvalidUtf8:
 		return "String is not UTF8"
 	case ErrInvalidProtocolVersion:
+		return "Invalid protocol version"
+	case ErrInvalid:
+		return "Invalid value"
+	case ErrNotSet:
+		return "Value is not set"
+	case ErrPanicDetected:
+		return "Panic detected"
+	case ErrNotSupported:
+		return "Not supported"
+	case ErrProtocolInvalidName:
 		return "Invalid protocol name"
 	}
 
-- 
2.43.0


From f81c4d04ac6095e1ec6d562ab7e6c75be54968b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 21/32] fix: variable byte integers longer than four bytes or
 not minimal were accepted

---
 mqttp/header.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index c853e9a..b9a08c6 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -333,17 +333,17 @@ func (h *header) decode(from []byte) (int, error) {
 // and the number of bytes n is <= 0 meaning:
 //
 //	n == 0: buf too small
-//	n  < 0: value larger than 32 bits (overflow)
-//              and -n is the number of bytes read
+//	n  < 0: value longer than four bytes (overflow) or not encoded in the minimum
+//              number of bytes and -n is the number of bytes read
 //
-// copied from binary.Uvariant
+// derived from binary.Uvariant, limited to four bytes as per [MQTT-2.2.3] and [MQTT-1.5.5-1]
 func uvarint(buf []byte) (uint32, int) {
 	var x uint32
 	var s uint
 	for i, b := range buf {
 		if b < 0x80 {
-			if i > 4 || i == 4 && b > 1 {
-				return 0, -(i + 1) // overflow
+			if i > 3 || i > 0 && b == 0 {
+				return 0, -(i + 1) // overflow or not minimal
 			}
 			return x | uint32(b)<<s, i + 1
 		}
-- 
2.43.0


From 19a60869f57a71bc76d04d0bfa90c8b893f49489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 22/32] fix: concurrent Max.AddU64 calls could lower the
 recorded maximum

---
 vlmonitoring/vlmetrics.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index bab4ec5..6336210 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -151,8 +151,11 @@ func LoadStore(src *uint64, dst *uint64) uint64 {
 
 func (c *Max) AddU64(n uint64) {
 	val := atomic.AddUint64(&c.base.uint64, n)
-	if atomic.LoadUint64(&c.Max) < val {
-		atomic.StoreUint64(&c.Max, val)
+	for {
+		max := atomic.LoadUint64(&c.Max)
+		if max >= val || atomic.CompareAndSwapUint64(&c.Max, max, val) {
+			return
+		}
 	}
 }
 
-- 
2.43.0


From 5f0f000a0030e363e0983eaf8fa0f2ba0316c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 23/32] fix: base.Get read a live counter without
 synchronisation

---
 vlmonitoring/vlmetrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index 6336210..082ada2 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -125,7 +125,7 @@ func (c *base) Load() uint64 {
 }
 
 func (c *base) Get() uint64 {
-	return c.uint64
+	return atomic.LoadUint64(&c.uint64)
 }
 
 func (c *Max) Load() Max {
-- 
2.43.0


From e980b646bd0440423557f842f6cc991a9f0bd208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 24/32] fix: CONNACK lacked the defined code 0x99 payload
 format invalid

---
 mqttp/reasonCodes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index c12dc49..b29c9b4 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -89,6 +89,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeInvalidTopicName:                   {iss: CodeIssuerServer, desc: "The Will Topic Name is not malformed, but is not accepted by this Server"},
 		CodePacketTooLarge:                     {iss: CodeIssuerServer, desc: "The Accept Packet exceeded the maximum permissible size"},
 		CodeQuotaExceeded:                      {iss: CodeIssuerServer, desc: "An implementation or administrative imposed limit has been exceeded"},
+		CodeInvalidPayloadFormat:               {iss: CodeIssuerServer, desc: "The Will Payload does not match the specified Payload Format Indicator"},
 		CodeRetainNotSupported:                 {iss: CodeIssuerServer, desc: "The Server does not support retained messages, and Will Retain was set to 1"},
 		CodeNotSupportedQoS:                    {iss: CodeIssuerServer, desc: "The Server does not support the QoS set in Will QoS"},
 		CodeUseAnotherServer:                   {iss: CodeIssuerServer, desc: "The Client should temporarily use another server"},
-- 
2.43.0


From 2202f0d08df59372f831490942c62d815ee9fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 25/32] fix: topic filters of a single level starting with $
 were refused

---
 mqttp/types.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/mqttp/types.go b/mqttp/types.go
index ef1f357..019a2b9 100644
--- a/mqttp/types.go
+++ b/mqttp/types.go
@@ -75,20 +75,22 @@ func NewTopic(topic []byte) (*Topic, error) {
 	}
 
 	if bytes.HasPrefix(topic, dollarPrefix) {
-		if idx := bytes.Index(topic, topicSep); idx > 0 {
-			t.dollarPrefix = topic[:idx]
+		idx := bytes.Index(topic, topicSep)
+		if idx < 0 {
+			// single level
+			idx = len(topic)
+		}
 
-			if bytes.Equal(t.dollarPrefix, sharePrefix) {
-				if !SharedTopicRegexp.Match(topic) {
-					return nil, CodeProtocolError
-				}
+		t.dollarPrefix = topic[:idx]
 
-				sIdx := bytes.Index(topic[idx+1:], topicSep) + idx + 1
-				t.shareName = topic[idx+1 : sIdx]
-				t.filter = topic[sIdx+1:]
+		if bytes.Equal(t.dollarPrefix, sharePrefix) {
+			if !SharedTopicRegexp.Match(topic) {
+				return nil, CodeProtocolError
 			}
-		} else {
-			return nil, CodeProtocolError
+
+			sIdx := bytes.Index(topic[idx+1:], topicSep) + idx + 1
+			t.shareName = topic[idx+1 : sIdx]
+			t.filter = topic[sIdx+1:]
 		}
 	}
 
-- 
2.43.0


From 2c5c60e30946e02d1ff198db71aaa8ed7feefd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 26/32] fix: decoding an MQTT 5.0 UNSUBACK with reason codes
 always failed

The reason codes were read without being counted as consumed, so Decode
took the rest of the packet for trailing bytes and refused it.
---
 mqttp/unsuback.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 737d093..06ed21c 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -84,12 +84,13 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 			return offset, err
 		}
 
-		for i, c := range from[offset:msg.remLen] {
+		for _, c := range from[offset:msg.remLen] {
 			code := ReasonCode(c)
 			if !code.IsValidForType(msg.mType) {
-				return offset + i, CodeProtocolError
+				return offset, CodeProtocolError
 			}
 			msg.returnCodes = append(msg.returnCodes, code)
+			offset++
 		}
 	}
 
-- 
2.43.0


From 5d3e43edc02ac2c2cd4857fdc1de0650ac60ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 27/32] fix: an MQTT 5.0 CONNECT with an empty will topic was
 accepted

---
 mqttp/connect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 9aca9d8..7a3ff98 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -477,6 +477,11 @@ func (msg *Connect) decodeMessage(from []byte) (int, error) {
 		}
 		offset += n
 
+		// [MQTT-4.7.3-1] there is no topic alias to stand in for an empty will topic
+		if msg.version >= ProtocolV50 && len(buf) == 0 {
+			return offset, CodeMalformedPacket
+		}
+
 		if err = msg.will.SetTopic(string(buf)); err != nil {
 			return offset, err
 		}
-- 
2.43.0


From 52442bbde71f60f7e18a003019c8878a1632fbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 28/32] fix: CONNECT accepted a will with properties its own
 decoder refuses

---
 mqttp/connect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 7a3ff98..5398dcc 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -133,6 +133,11 @@ func (msg *Connect) SetWill(m *Publish) error {
 		return ErrInvalidArgs
 	}
 
+	// [MQTT-2.2.2.2] neither property is allowed for Will
+	if m.properties.Get(PropertySubscriptionIdentifier) != nil || m.properties.Get(PropertyTopicAlias) != nil {
+		return ErrInvalidArgs
+	}
+
 	// Reset all will flags
 	msg.ResetWill()
 
-- 
2.43.0


From 629469b849f2006a8368a23b10c1b7c2872711d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:34 +0000
Subject: [PATCH 29/32] fix: malformed remaining length was answered with a
 demand for more data

A remaining length of more than four bytes or not in its minimal form can not
become valid by reading more, readers of a stream would wait forever.
---
 mqttp/header.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index b9a08c6..a2c873b 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -294,6 +294,14 @@ func (h *header) decode(from []byte) (int, error) {
 	offset++
 
 	remLen, m := uvarint(from[offset:])
+	// [MQTT-2.2.3] more data does not make malformed length valid
+	if m < 0 {
+		if h.version == ProtocolV50 {
+			return offset, CodeMalformedPacket
+		}
+		return offset, CodeRefusedServerUnavailable
+	}
+
 	if m <= 0 {
 		return offset, ErrInsufficientDataSize
 	}
@@ -341,9 +349,12 @@ func uvarint(buf []byte) (uint32, int) {
 	var x uint32
 	var s uint
 	for i, b := range buf {
+		if i > 3 {
+			return 0, -(i + 1) // overflow
+		}
 		if b < 0x80 {
-			if i > 3 || i > 0 && b == 0 {
-				return 0, -(i + 1) // overflow or not minimal
+			if i > 0 && b == 0 {
+				return 0, -(i + 1) // not minimal
 			}
 			return x | uint32(b)<<s, i + 1
 		}
-- 
2.43.0


From 709a5f791d0c5c599e7bae10a49ffe33b60f8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:34 +0000
Subject: [PATCH 30/32] fix: complete packet with a truncated field was
 answered with a demand for more data

---
 mqttp/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index a2c873b..749012e 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -325,6 +325,11 @@ func (h *header) decode(from []byte) (int, error) {
 
 		msgTotal, err = h.cb.decode(from[offset:])
 		offset += msgTotal
+
+		// packet is complete thus field it lacks data for is malformed
+		if err == ErrInsufficientDataSize {
+			return offset, CodeMalformedPacket
+		}
 	}
 
 	// this is malformed packet if packed was decoded but there is still
-- 
2.43.0


From 8c39be74a1d5e54082d789fb8acb0e9002b7481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 31/32] fix: AddReturnCodes kept the leading codes of a list it
 refused

---
 mqttp/suback.go   | 4 ++--
 mqttp/unsuback.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mqttp/suback.go b/mqttp/suback.go
index 1a9bf92..7415791 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -54,10 +54,10 @@ func (msg *SubAck) AddReturnCodes(ret []ReasonCode) error {
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
-
-		msg.returnCodes = append(msg.returnCodes, c)
 	}
 
+	msg.returnCodes = append(msg.returnCodes, ret...)
+
 	return nil
 }
 
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 06ed21c..ec7a811 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -58,10 +58,10 @@ func (msg *UnSubAck) AddReturnCodes(ret []ReasonCode) error {
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
-
-		msg.returnCodes = append(msg.returnCodes, c)
 	}
 
+	msg.returnCodes = append(msg.returnCodes, ret...)
+
 	return nil
 }
 
-- 
2.43.0


From f9d93ad5fd428c845e712a5fff89e643aa48ced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:16 +0000
Subject: [PATCH 32/32] fix: ReasonCode.IsValidV5 refuses codes MQTT 5.0 does
 not define

---
 mqttp/reasonCodes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index b29c9b4..64b30cf 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -278,7 +278,7 @@ func (c ReasonCode) IsValidV3() bool {
 
 // IsValidV5 check either reason code is valid for MQTT V5.0 or not
 func (c ReasonCode) IsValidV5() bool {
-	if c == CodeSuccess || (c >= CodeNoMatchingSubscribers && c <= CodeWildcardSubscriptionsNotSupported) {
+	if c == CodeSuccess || (c >= CodeNoMatchingSubscribers && c.IsValid()) {
 		return true
 	}
 	return false
-- 
2.43.0

