From fe28deaf913fb37e57bc4faed99f7fe9136bb8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 01/43] fix: beserial.Marshal: do not swallow errors from
 behind pointers

An error while encoding a pointer's target was dropped and a nil buffer
returned as success.
---
 beserial/encode.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beserial/encode.go b/beserial/encode.go
index 78e7cd9..8f84c37 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -59,8 +59,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		} else if v.IsNil() {
 			return nil, ErrNonOptionalNil
 		}
-		b, err = marshal(v.Elem(), b, ts)
-		return b, nil
+		return marshal(v.Elem(), b, ts)
 	case reflect.Array:
 		typ := v.Type()
 		if typ.Elem().Kind() == reflect.Uint8 {
-- 
2.43.0


From 4a0067f13264215334be365c141d53058180444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 02/43] fix: beserial.Marshal: refuse sequences longer than
 their length tag

The length was silently truncated to the width of the tag, producing bytes
that decode to something else.
---
 beserial/encode.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/beserial/encode.go b/beserial/encode.go
index 8f84c37..c8f1e3a 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -3,6 +3,7 @@ package beserial
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -78,6 +79,10 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 			return nil, ErrNoLenTag
 		}
 		size := v.Len()
+		if maxLen, ok := maxLen(ts.lenTag); ok && uint64(size) > maxLen {
+			return nil, fmt.Errorf("in %s: length %d exceeds %s length tag",
+				v.Type().String(), size, ts.lenTag)
+		}
 		b = marshalInt(ts.lenTag, size, b)
 		typ := v.Type()
 		if kind == reflect.String {
@@ -122,7 +127,19 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 	return b, nil
 }
 
-// TODO Bounds checks
+// maxLen returns the largest length a length tag can express.
+func maxLen(kind reflect.Kind) (max uint64, ok bool) {
+	switch kind {
+	case reflect.Uint8:
+		return math.MaxUint8, true
+	case reflect.Uint16:
+		return math.MaxUint16, true
+	case reflect.Uint32:
+		return math.MaxUint32, true
+	default:
+		return 0, false
+	}
+}
 
 func marshalInt(kind reflect.Kind, n int, b []byte) []byte {
 	var st [8]byte
-- 
2.43.0


From 6b9bd31b8c4c2eff8d23516367411e584624cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 03/43] fix: beserial: parse struct tags with several options

len_tag was looked up in the whole tag instead of the current option, so
combining it with optional panicked.
---
 beserial/tags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beserial/tags.go b/beserial/tags.go
index be863de..7faa72b 100644
--- a/beserial/tags.go
+++ b/beserial/tags.go
@@ -20,8 +20,8 @@ func (ts *tags) parse(tag string) {
 		switch {
 		case el == optional:
 			ts.optional = true
-		case strings.HasPrefix(tag, lenTag):
-			switch tag[len(lenTag):] {
+		case strings.HasPrefix(el, lenTag):
+			switch el[len(lenTag):] {
 			case "uint8":
 				ts.lenTag = reflect.Uint8
 			case "uint16":
-- 
2.43.0


From 115c49c978a84685030b607385481361817b9f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 04/43] fix: beserial: handle pointer fields to self-encoding
 types

A pointer field whose target implements Marshaler or Unmarshaler was passed
to the custom method directly: the optional flag was never written or read,
and nil pointers were dereferenced.
---
 beserial/decode.go | 5 ++---
 beserial/encode.go | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index c549ec5..cb8b60c 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -61,9 +61,8 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 	kind := v.Kind()
 	// Check for UnmarshalBESerial implementation.
 	var addr reflect.Value
-	if kind == reflect.Ptr {
-		addr = v
-	} else if v.CanAddr() {
+	if kind != reflect.Ptr && v.CanAddr() {
+		// Pointers are handled below: their target is checked in turn.
 		addr = v.Addr()
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
diff --git a/beserial/encode.go b/beserial/encode.go
index c8f1e3a..d5c2f39 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -36,9 +36,8 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 	kind := v.Kind()
 	// Check for MarshalBESerial implementation.
 	var addr reflect.Value
-	if kind == reflect.Ptr {
-		addr = v
-	} else if v.CanAddr() {
+	if kind != reflect.Ptr && v.CanAddr() {
+		// Pointers are handled below: their target is checked in turn.
 		addr = v.Addr()
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
-- 
2.43.0


From adb27b9901346d540e3a3d91d3cc726de0773f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 05/43] fix: beserial.Size: account for custom encodings and
 booleans

Size ignored Marshaler implementations and rejected booleans, so it failed
or disagreed with Marshal for most wire types.
---
 beserial/size.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/beserial/size.go b/beserial/size.go
index bceeacb..5229ff5 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -20,6 +20,12 @@ func Size(v interface{}) (int, error) {
 
 func valueSize(v reflect.Value, ts tags) (total int, err error) {
 	kind := v.Kind()
+	// Check for a custom encoding.
+	if kind != reflect.Ptr && v.CanAddr() && v.Addr().CanInterface() {
+		if u, ok := v.Addr().Interface().(Marshaler); ok {
+			return u.SizeBESerial()
+		}
+	}
 	switch kind {
 	case reflect.Ptr:
 		if ts.optional {
@@ -97,7 +103,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 
 func sizeNumber(kind reflect.Kind) (n int, ok bool) {
 	switch kind {
-	case reflect.Int8, reflect.Uint8:
+	case reflect.Int8, reflect.Uint8, reflect.Bool:
 		return 1, true
 	case reflect.Int16, reflect.Uint16:
 		return 2, true
-- 
2.43.0


From 8e7c4d3f626db8ed2abb1fa3713756f8dcf71aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 06/43] fix: beserial: reject nil and non-pointer arguments as
 documented

Unmarshal, Marshal and Size called IsNil on values of any kind and panicked,
and Unmarshal silently ignored nil pointers instead of returning the
documented InvalidUnmarshalError.
---
 beserial/decode.go |  4 +---
 beserial/encode.go | 12 ++----------
 beserial/size.go   |  4 +---
 3 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index cb8b60c..16b47e8 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -46,9 +46,7 @@ type decodeState struct {
 
 func (d *decodeState) unmarshal(v interface{}) error {
 	rv := reflect.ValueOf(v)
-	if rv.IsNil() {
-		return nil
-	} else if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return &InvalidUnmarshalError{reflect.TypeOf(v)}
 	}
 	if err := d.value(rv.Elem(), tags{}); err != nil {
diff --git a/beserial/encode.go b/beserial/encode.go
index d5c2f39..e328368 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -10,16 +10,8 @@ import (
 // Marshal appends the binary encoding of v to b.
 func Marshal(b []byte, v interface{}) ([]byte, error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() == reflect.Interface {
-		if rv.Interface() == nil {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		}
-	} else {
-		if rv.IsNil() {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		} else if rv.Kind() != reflect.Ptr {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		}
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
+		return nil, fmt.Errorf("TODO error") // FIXME
 	}
 	return marshal(rv.Elem(), b, tags{})
 }
diff --git a/beserial/size.go b/beserial/size.go
index 5229ff5..4ed0adf 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -10,9 +10,7 @@ import (
 // v must not be nil or a non-pointer.
 func Size(v interface{}) (int, error) {
 	rv := reflect.ValueOf(v)
-	if rv.IsNil() {
-		return 0, nil
-	} else if rv.Kind() != reflect.Ptr {
+	if rv.Kind() != reflect.Ptr || rv.IsNil() {
 		return 0, &InvalidUnmarshalError{reflect.TypeOf(v)}
 	}
 	return valueSize(rv.Elem(), tags{})
-- 
2.43.0


From 1254dbb22286255b3483199c445c6237656bcf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 07/43] fix: wire.BitSet: compute the byte count of sets longer
 than 248 bits

The ceiling division overflowed uint8, so bits past the (empty) buffer were
accessed and decoding an interlink or resolving a Merkle path panicked.
---
 wire/bitset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wire/bitset.go b/wire/bitset.go
index 868ae81..489d909 100644
--- a/wire/bitset.go
+++ b/wire/bitset.go
@@ -19,13 +19,13 @@ func (bs *BitSet) UnmarshalBESerial(b []byte) (n int, err error) {
 	bs.Len = b[0]
 	b = b[1:]
 	// Read repeat bits
-	size := (bs.Len + 7) / 8 // ceil division
+	size := (int(bs.Len) + 7) / 8 // ceil division
 	bs.Bits = make([]byte, size)
 	if len(b) < len(bs.Bits) {
 		return 0, fmt.Errorf("reading bit set: %w", beserial.ErrUnexpectedEOF)
 	}
 	copy(bs.Bits, b)
-	return 1 + int(size), nil
+	return 1 + size, nil
 }
 
 func (bs *BitSet) MarshalBESerial(b []byte) ([]byte, error) {
-- 
2.43.0


From 273a510595caa7843ee6e5b52b73d224645b951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 08/43] fix: wire.BlockInterlink: read each hash before
 advancing past it

Every hash was taken from the 32 bytes following it.
---
 wire/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/block.go b/wire/block.go
index 4d64ac4..07ae67c 100644
--- a/wire/block.go
+++ b/wire/block.go
@@ -74,8 +74,8 @@ func (il *BlockInterlink) UnmarshalBESerial(b []byte) (n int, err error) {
 			if len(b) < len(hash) {
 				return 0, fmt.Errorf("failed to read hash: %w", beserial.ErrUnexpectedEOF)
 			}
-			b = b[len(hash):]
 			copy(hash[:], b)
+			b = b[len(hash):]
 		}
 		// Save pointer to last hash
 		il.Hashes[i] = hash
-- 
2.43.0


From 3391c5fff10ffd1aa20921aa4799832a2956b81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 09/43] fix: wire.BlockInterlink: do not count padding bits as
 hashes

Zero padding bits in the last byte of the repeat bits added empty entries to
Compressed, which were written out again when encoding.
---
 wire/block.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wire/block.go b/wire/block.go
index 07ae67c..fcfd488 100644
--- a/wire/block.go
+++ b/wire/block.go
@@ -80,6 +80,8 @@ func (il *BlockInterlink) UnmarshalBESerial(b []byte) (n int, err error) {
 		// Save pointer to last hash
 		il.Hashes[i] = hash
 	}
+	// Padding bits past the last entry do not count as hashes.
+	il.Compressed = il.Compressed[:compressedIndex]
 	return len(orig) - len(b), nil
 }
 
-- 
2.43.0


From 946e8afc7111dbe685e2472fcb2fe30fb6809ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 10/43] fix: Nibbles.Compress: allocate enough space

The buffer was one byte short, so every non-empty path panicked.
---
 tree/store.go   | 2 +-
 wire/nibbles.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/store.go b/tree/store.go
index ea149ab..983d678 100644
--- a/tree/store.go
+++ b/tree/store.go
@@ -36,7 +36,7 @@ func (nbs Nibbles) ToKey() (key [20]byte) {
 }
 
 func (nbs Nibbles) Compress() []byte {
-	buf := make([]byte, (len(nbs)-1)/2)
+	buf := make([]byte, (len(nbs)+1)/2)
 	for i, n := range nbs {
 		if i%2 == 0 {
 			buf[i/2] = n << 4
diff --git a/wire/nibbles.go b/wire/nibbles.go
index da2aa5a..a6598b5 100644
--- a/wire/nibbles.go
+++ b/wire/nibbles.go
@@ -29,7 +29,7 @@ func (nbs Nibbles) ToKey() (key [20]byte) {
 }
 
 func (nbs Nibbles) Compress() []byte {
-	buf := make([]byte, (len(nbs)-1)/2)
+	buf := make([]byte, (len(nbs)+1)/2)
 	for i, n := range nbs {
 		if i%2 == 0 {
 			buf[i/2] = n << 4
-- 
2.43.0


From 3746c46afc77d92ce8138fe1965881235573bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 11/43] fix: wire.HeaderMessage: report its own message type

---
 wire/msg_inv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index 9a8c5cd..c039624 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -87,5 +87,5 @@ type HeaderMessage struct {
 }
 
 func (m *HeaderMessage) Type() uint64 {
-	return MessageBlock
+	return MessageHeader
 }
-- 
2.43.0


From b4334939da82f330192912b9fb18d2c7d795fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 12/43] fix: wire: encode and decode empty messages

Empty messages are plain values, not pointers, so beserial could neither
decode nor encode them: any mempool, get-chain-proof or get-head message
received from a peer panicked, now errored.
---
 wire/msg_types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wire/msg_types.go b/wire/msg_types.go
index 6b56779..69d180a 100644
--- a/wire/msg_types.go
+++ b/wire/msg_types.go
@@ -94,7 +94,9 @@ func UnmarshalMessage(msgType uint64, buf []byte) (m Message, err error) {
 		return nil, UnknownMessageError(msgType)
 	}
 	var n int
-	n, err = beserial.Unmarshal(buf, m)
+	if _, empty := m.(EmptyMessage); !empty {
+		n, err = beserial.Unmarshal(buf, m)
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -106,6 +108,11 @@ func UnmarshalMessage(msgType uint64, buf []byte) (m Message, err error) {
 
 // MarshalMessage encodes the message to beserial and prefixes the message type ID.
 func MarshalMessage(m Message) (final []byte, err error) {
+	if _, empty := m.(EmptyMessage); empty {
+		final = make([]byte, 8)
+		binary.BigEndian.PutUint64(final, m.Type())
+		return final, nil
+	}
 	size, err := beserial.Size(m)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9399e605e9134e5c1587330b3e79d6d93768cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 13/43] fix: wire.InvMessage: make inventory messages
 (de)serializable

The vectors had no length tag, so encoding and decoding always failed, and
the message type was part of the payload, where it could contradict the
type of the message.
---
 wire/msg_inv.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index c039624..2e348d9 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -1,5 +1,9 @@
 package wire
 
+import (
+	"terorie.dev/nimiq/beserial"
+)
+
 type InvVector struct {
 	Type uint32
 	Hash [32]byte
@@ -19,6 +23,29 @@ type InvMessage struct {
 	Vectors     []InvVector
 }
 
+// invPayload is the message content, the type is part of the envelope.
+type invPayload struct {
+	Vectors []InvVector `beserial:"len_tag=uint16"`
+}
+
+// UnmarshalBESerial unmarshals the inventory vectors.
+func (m *InvMessage) UnmarshalBESerial(b []byte) (n int, err error) {
+	var payload invPayload
+	n, err = beserial.Unmarshal(b, &payload)
+	m.Vectors = payload.Vectors
+	return
+}
+
+// MarshalBESerial marshals the inventory vectors.
+func (m *InvMessage) MarshalBESerial(b []byte) ([]byte, error) {
+	return beserial.Marshal(b, &invPayload{Vectors: m.Vectors})
+}
+
+// SizeBESerial returns the size of the inventory vectors.
+func (m *InvMessage) SizeBESerial() (int, error) {
+	return beserial.Size(&invPayload{Vectors: m.Vectors})
+}
+
 func (m *InvMessage) Type() uint64 {
 	return m.MessageType
 }
-- 
2.43.0


From b5167a3567234db0e1c61ae187d90e741a1a3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 14/43] fix: wire: make transaction proof and receipt requests
 (de)serializable

The addresses had no length tag, and UnmarshalMessage did not know either
message although both are defined.
---
 wire/msg_inv.go   | 2 +-
 wire/msg_types.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index 2e348d9..a83bcae 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -77,7 +77,7 @@ func (m *GetBlocksMessage) Type() uint64 {
 
 type GetTxProofMessage struct {
 	BlockHash [32]byte
-	Addresses [][20]byte
+	Addresses [][20]byte `beserial:"len_tag=uint16"`
 }
 
 func (m *GetTxProofMessage) Type() uint64 {
diff --git a/wire/msg_types.go b/wire/msg_types.go
index 69d180a..3bd93f3 100644
--- a/wire/msg_types.go
+++ b/wire/msg_types.go
@@ -84,6 +84,10 @@ func UnmarshalMessage(msgType uint64, buf []byte) (m Message, err error) {
 		m = &BasePingMessage{Pong: true}
 	case MessageGetChainProof:
 		m = GetChainProofMessage
+	case MessageGetTxProof:
+		m = new(GetTxProofMessage)
+	case MessageGetTxReceipts:
+		m = new(GetTxReceiptsMessage)
 	case MessageGetHead:
 		m = GetHeadMessage
 	case MessageHead:
-- 
2.43.0


From b9366a6968f1e1ac53f5956e2e2e7a52a6a9c2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 15/43] fix: wire.NetAddress: keep the type and accept
 placeholder addresses

Decoding dropped the address type, so an IPv6 address was encoded again as
IPv4 with 16 bytes, and placeholder addresses could not be decoded at all.
---
 wire/p2p.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wire/p2p.go b/wire/p2p.go
index 87f2cc3..9dfcb11 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -36,9 +36,12 @@ func (na *NetAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 		na.IP = make([]byte, net.IPv4len)
 	case NetAddressIPv6:
 		na.IP = make([]byte, net.IPv6len)
+	case NetAddressUnspecified, NetAddressUnknown:
+		na.IP = nil
 	default:
 		return n, fmt.Errorf("invalid NetAddress type: 0x%x", t)
 	}
+	na.Type = t
 	if len(b) < len(na.IP) {
 		return n, beserial.ErrUnexpectedEOF
 	}
-- 
2.43.0


From 0e4c8fe7ee78b278ba1dd85eb8527cf7b9bab179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 16/43] fix: wire.PeerAddress: (de)serialize the
 protocol-specific detail

The detail was passed to beserial as a pointer to an interface, which it
cannot handle, so no peer address, and thus no version or address message,
could be encoded or decoded. WebRTC addresses carry no detail.
---
 wire/p2p.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/wire/p2p.go b/wire/p2p.go
index 9dfcb11..32cfb0c 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -113,14 +113,15 @@ func (pa *PeerAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 		return
 	}
 	switch pa.Protocol {
-	case ProtocolDumb:
+	case ProtocolDumb, ProtocolRTC:
 		pa.Detail = nil
+		return
 	case ProtocolWS, ProtocolWSS:
 		pa.Detail = new(PeerAddressSrv)
 	default:
 		return n, fmt.Errorf("unknown protocol: 0x%x", pa.Protocol)
 	}
-	sub, err = beserial.Unmarshal(b, &pa.Detail)
+	sub, err = beserial.Unmarshal(b, pa.Detail)
 	n += sub
 	b = b[sub:]
 	if err != nil {
@@ -135,7 +136,21 @@ func (pa *PeerAddress) MarshalBESerial(b []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return beserial.Marshal(b, &pa.Detail)
+	switch pa.Protocol {
+	case ProtocolDumb, ProtocolRTC:
+		if pa.Detail != nil {
+			return nil, fmt.Errorf("unexpected detail for protocol: 0x%x", pa.Protocol)
+		}
+		return b, nil
+	case ProtocolWS, ProtocolWSS:
+		srv, ok := pa.Detail.(*PeerAddressSrv)
+		if !ok {
+			return nil, fmt.Errorf("missing detail for protocol: 0x%x", pa.Protocol)
+		}
+		return beserial.Marshal(b, srv)
+	default:
+		return nil, fmt.Errorf("unknown protocol: 0x%x", pa.Protocol)
+	}
 }
 
 func (pa *PeerAddress) SizeBESerial() (n int, err error) {
@@ -145,7 +160,10 @@ func (pa *PeerAddress) SizeBESerial() (n int, err error) {
 		return 0, err
 	}
 	n += sub
-	sub, err = beserial.Size(&pa.Detail)
+	if pa.Detail == nil {
+		return n, nil
+	}
+	sub, err = beserial.Size(pa.Detail)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 2ccb532b1923f34d900e244db29bd6297e1d3940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 17/43] fix: wire.NetAddress: refuse to encode an IP that
 contradicts the type

The bytes written could not be decoded again, for example for an IPv4
address in the 16-byte form net.ParseIP returns.
---
 wire/p2p.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/wire/p2p.go b/wire/p2p.go
index 32cfb0c..4729c10 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -50,6 +50,20 @@ func (na *NetAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 }
 
 func (na *NetAddress) MarshalBESerial(b []byte) ([]byte, error) {
+	var ipLen int
+	switch na.Type {
+	case NetAddressIPv4:
+		ipLen = net.IPv4len
+	case NetAddressIPv6:
+		ipLen = net.IPv6len
+	case NetAddressUnspecified, NetAddressUnknown:
+		ipLen = 0
+	default:
+		return nil, fmt.Errorf("invalid NetAddress type: 0x%x", na.Type)
+	}
+	if len(na.IP) != ipLen {
+		return nil, fmt.Errorf("invalid IP length %d for NetAddress type 0x%x", len(na.IP), na.Type)
+	}
 	b = append(b, na.Type)
 	b = append(b, na.IP...)
 	return b, nil
-- 
2.43.0


From c83d3d6a309caa236222c587ac92fb3f05e70b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 18/43] fix: address.Decode: require both letters of the
 country code

---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index b712bdf..0b53b23 100644
--- a/address/address.go
+++ b/address/address.go
@@ -33,7 +33,7 @@ func Decode(encoded string) (addr [20]byte, err error) {
 		return
 	}
 	// Verify string: Country code
-	if compact[0] != 'N' && compact[1] != 'Q' {
+	if compact[0] != 'N' || compact[1] != 'Q' {
 		err = ErrInvalidCountryCode
 		return
 	}
-- 
2.43.0


From ccb3631ff21787411587961425634b2d256ea3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 19/43] fix: address.Decode: ignore trailing spaces

---
 address/address.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/address/address.go b/address/address.go
index 0b53b23..eff167e 100644
--- a/address/address.go
+++ b/address/address.go
@@ -107,13 +107,14 @@ func truncateWhitespace(encodedStr string) (compact [36]byte, err error) {
 			}
 			// All chars have been read, and there is no overflow.
 			return
-		} else if len(compactRemainder) == 0 {
-			// All address chars have been read, but there are some remaining (overflow).
-			err = ErrInvalidLength
-			return
 		}
 		// Read next char from input.
 		if char := remainder[0]; char != ' ' {
+			if len(compactRemainder) == 0 {
+				// All address chars have been read, but there are some remaining (overflow).
+				err = ErrInvalidLength
+				return
+			}
 			// Not a space, write to encoded.
 			compactRemainder[0] = char
 			compactRemainder = compactRemainder[1:]
-- 
2.43.0


From 21087e4a9cca9391e4470216b38bf18d304e85a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 20/43] fix: genesis: read all fields of the profile config

The keys of the config files (network_id, seed_peers, ...) did not match any
field of Config, so everything except the name was silently dropped.
---
 genesis/genesis.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/genesis/genesis.go b/genesis/genesis.go
index c82326d..8e76249 100644
--- a/genesis/genesis.go
+++ b/genesis/genesis.go
@@ -3,6 +3,7 @@ package genesis
 
 import (
 	"embed"
+	"encoding/hex"
 	"fmt"
 	"io/fs"
 	"os"
@@ -113,7 +114,31 @@ func readConfigFromFS(files fs.FS, path string) (conf *Config, err error) {
 	}
 	defer f.Close()
 	dec := toml.NewDecoder(f)
-	conf = new(Config)
-	err = dec.Decode(conf)
-	return
+	var raw struct {
+		NetworkID   uint8    `toml:"network_id"`
+		Name        string   `toml:"name"`
+		SeedPeers   []string `toml:"seed_peers"`
+		SeedLists   []string `toml:"seed_lists"`
+		GenesisHash string   `toml:"genesis_hash"`
+	}
+	if err := dec.Decode(&raw); err != nil {
+		return nil, err
+	}
+	conf = &Config{
+		NetworkID: raw.NetworkID,
+		Name:      raw.Name,
+		SeedPeers: raw.SeedPeers,
+		SeedLists: raw.SeedLists,
+	}
+	if raw.GenesisHash != "" {
+		hash, err := hex.DecodeString(raw.GenesisHash)
+		if err != nil {
+			return nil, fmt.Errorf("invalid genesis hash: %w", err)
+		}
+		if len(hash) != len(conf.GenesisHash) {
+			return nil, fmt.Errorf("invalid genesis hash length: %d", len(hash))
+		}
+		copy(conf.GenesisHash[:], hash)
+	}
+	return conf, nil
 }
-- 
2.43.0


From 8596674a08c633d30f02ebd34a22dc61967b0f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 21/43] fix: wire.TargetToCompact: handle targets of one or two
 bytes

Targets shorter than three bytes panicked with an index out of range.
---
 wire/utils.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wire/utils.go b/wire/utils.go
index bac51a3..a76407b 100644
--- a/wire/utils.go
+++ b/wire/utils.go
@@ -9,15 +9,21 @@ import (
 // TargetToCompact converts a target hash number into the compact "n-bits" representation.
 func TargetToCompact(target big.Int) (compact uint32) {
 	tgtBytes := target.Bytes()
+	size := uint32(len(tgtBytes))
+
+	// Targets of less than three bytes get zero-padded.
+	for len(tgtBytes) < 3 {
+		tgtBytes = append(tgtBytes, 0)
+	}
 
 	// If the first (most significant) byte is
 	// greater than 127 (0x7f), prepend a zero byte.
-	if tgtBytes[0] >= 0x80 && len(tgtBytes) >= 3 {
-		compact |= uint32(len(tgtBytes)+1) << 24
+	if tgtBytes[0] >= 0x80 {
+		compact |= (size + 1) << 24
 		compact |= uint32(tgtBytes[0]) << 8
 		compact |= uint32(tgtBytes[1])
 	} else {
-		compact |= uint32(len(tgtBytes)) << 24
+		compact |= size << 24
 		compact |= uint32(tgtBytes[0]) << 16
 		compact |= uint32(tgtBytes[1]) << 8
 		compact |= uint32(tgtBytes[2])
-- 
2.43.0


From 57a14823a998e6df4253ea1e6cb28e0e0835056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 22/43] fix: wire.BasicAccount: refuse spends whose value plus
 fee overflows

The sum wrapped around, so a transaction could move almost 2^64 out of an
account holding next to nothing.
---
 wire/account.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/account.go b/wire/account.go
index ec3bb20..7ce8b16 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -129,7 +129,7 @@ func (a *BasicAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 func (a *BasicAccount) ApplyOutgoingTx(tx Tx, _ uint32) (Account, error) {
 	value, fee := tx.Amount()
 	amount := value + fee
-	if amount > a.Value {
+	if amount < value || amount > a.Value {
 		return nil, &OverspendError{Available: a.Value, Spend: amount}
 	}
 	return &BasicAccount{Value: a.Value - amount}, nil
-- 
2.43.0


From b301df9e068cd000a502453adc072bee47ed3a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 23/43] fix: wire.BasicAccount: refuse incoming values that
 overflow the balance

---
 wire/account.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wire/account.go b/wire/account.go
index 7ce8b16..03b3349 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -138,6 +138,9 @@ func (a *BasicAccount) ApplyOutgoingTx(tx Tx, _ uint32) (Account, error) {
 // ApplyIncomingTx adds the transaction value to the account.
 func (a *BasicAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
 	value, _ := tx.Amount()
+	if a.Value+value < a.Value {
+		return nil, fmt.Errorf("incoming value %d overflows balance %d", value, a.Value)
+	}
 	return &BasicAccount{Value: a.Value + value}, nil
 }
 
-- 
2.43.0


From deeb3f6fff03023016584a7c6b99166a12c0a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 24/43] fix: wire: refuse payments to existing contracts
 instead of panicking

Any block with a transaction to an existing vesting contract or HTLC
crashed the process.
---
 wire/account.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index 03b3349..f5db063 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -249,9 +249,9 @@ func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error)
 	return updated, nil
 }
 
-// ApplyIncomingTx adds the transaction value to the account.
+// ApplyIncomingTx always fails, as contracts do not accept incoming transactions.
 func (c *VestingAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
-	panic("not implemented")
+	return nil, fmt.Errorf("vesting contract cannot receive funds")
 }
 
 func (c *VestingAccount) amountUnlocked(height uint32) uint64 {
@@ -403,9 +403,9 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	return updated, nil
 }
 
-// ApplyIncomingTx adds the transaction value to the account.
+// ApplyIncomingTx always fails, as contracts do not accept incoming transactions.
 func (h *HTLCAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
-	panic("not implemented")
+	return nil, fmt.Errorf("HTLC cannot receive funds")
 }
 
 // AccountPruned marks the removal of an account from the state.
-- 
2.43.0


From b90386e25259bb86721c034aeab901ce126b9ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 25/43] fix: wire: debit fees from contracts

Contracts were only debited the transaction value while the miner was
credited the fee, creating coins out of nothing.
---
 wire/account.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index f5db063..ad8e3b5 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -230,10 +230,11 @@ func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error)
 	unlocked := c.amountUnlocked(height)
 	// Check transaction amount.
 	extTx := tx.(*ExtendedTx)
-	if extTx.Value > unlocked {
-		return nil, &OverspendError{Available: unlocked, Spend: extTx.Value}
+	amount := extTx.Value + extTx.Fee
+	if amount < extTx.Value || amount > unlocked {
+		return nil, &OverspendError{Available: unlocked, Spend: amount}
 	}
-	newValue := c.Value - extTx.Value
+	newValue := c.Value - amount
 	// Verify transaction was signed by contract owner.
 	var proof SignatureProof
 	if err := beserial.UnmarshalFull(extTx.Proof, &proof); err != nil {
@@ -326,8 +327,9 @@ func (h *HTLCAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// TODO use typed errors
 	ext := tx.(*ExtendedTx)
-	if ext.Value > h.Value {
-		return nil, &OverspendError{Available: h.Value, Spend: ext.Value}
+	amount := ext.Value + ext.Fee
+	if amount < ext.Value || amount > h.Value {
+		return nil, &OverspendError{Available: h.Value, Spend: amount}
 	}
 	// Read proof type.
 	if len(ext.Proof) == 0 {
@@ -399,7 +401,7 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// Create copy.
 	updated := new(HTLCAccount)
 	*updated = *h
-	updated.Value -= ext.Value
+	updated.Value -= amount
 	return updated, nil
 }
 
-- 
2.43.0


From 3fabffaf14980b6b7c4bf9728db10267d504b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 26/43] fix: wire.VestingAccount: keep the locked part of the
 funds in the contract

The amount unlocked so far was compared with each single withdrawal instead
of with what has been withdrawn in total, so the same step could be
withdrawn again and again until the balance wrapped around to almost 2^64.
It was also released continuously instead of step by step.
---
 wire/account.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index ad8e3b5..c1038bd 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -2,6 +2,7 @@ package wire
 
 import (
 	"fmt"
+	"math/bits"
 	"strconv"
 
 	"golang.org/x/crypto/blake2b"
@@ -263,9 +264,17 @@ func (c *VestingAccount) amountUnlocked(height uint32) uint64 {
 		return c.Value // unlock immediately
 	}
 	// unlock step by step
-	progress := float64(height-c.VestingStart) / float64(c.VestingStepBlocks)
-	unlocked := uint64(progress * float64(c.VestingStepAmount))
-	return unlocked
+	steps := uint64((height - c.VestingStart) / c.VestingStepBlocks)
+	overflow, unlocked := bits.Mul64(steps, c.VestingStepAmount)
+	if overflow != 0 || unlocked >= c.VestingTotalAmount {
+		return c.Value
+	}
+	// the rest has to stay in the contract
+	locked := c.VestingTotalAmount - unlocked
+	if locked >= c.Value {
+		return 0
+	}
+	return c.Value - locked
 }
 
 // An HTLCAccount (hashed time-locked contract)
-- 
2.43.0


From 8de0341a87cb6c954d23246535c6e19f993ae45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 27/43] fix: wire.HTLCAccount: enforce the minimum remaining
 amount

A recipient revealing only part of the hash chain could withdraw all funds.
---
 wire/account.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wire/account.go b/wire/account.go
index c1038bd..be30b83 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -372,7 +372,14 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 		if proofParams.Proof.SignerAddress() != h.Recipient {
 			return nil, fmt.Errorf("invalid recipient signature")
 		}
-		// TODO check min cap
+		// Check that the share of the hash steps not revealed stays in the contract.
+		if proofParams.HashDepth < h.HashCount {
+			hi, lo := bits.Mul64(h.TotalAmount, uint64(h.HashCount-proofParams.HashDepth))
+			minCap, _ := bits.Div64(hi, lo, uint64(h.HashCount))
+			if h.Value-amount < minCap {
+				return nil, &OverspendError{Available: h.Value, Spend: amount}
+			}
+		}
 	case 2:
 		// Get proof params.
 		var proofParams struct {
-- 
2.43.0


From 18921873d8f181d3a517b63158b175323a3c11b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 28/43] fix: accounts: reject repeated entries in the prune
 list

Only the last entry for an address was compared with the account, so a
block could carry additional altered ones.
---
 accounts/accounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index c807268..270885c 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -163,6 +163,12 @@ func (a *Accounts) pruneAccounts(block *wire.Block) error {
 	// if they were correctly pruned and if accounts were missed.
 	pruned := make(map[[20]byte]wire.Account)
 	for _, acc := range block.Body.Pruned {
+		if _, ok := pruned[acc.Address]; ok {
+			return &InvalidPruneError{
+				address: acc.Address,
+				error:   fmt.Errorf("account listed twice in prune list"),
+			}
+		}
 		pruned[acc.Address] = acc.Account.Account
 	}
 	// For each transaction that prunes an account,
-- 
2.43.0


From bb95df1fb928b05e202fbb2c3270bde6afd484e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 29/43] fix: accounts: do not re-create contracts created in
 the same block

A second contract creation for the same address replaced the contract, and
with it the owner of the funds already in it.
---
 accounts/accounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 270885c..a43d342 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -220,6 +220,12 @@ func (a *Accounts) createContract(tx wire.Tx, height uint32) error {
 		panic("accounts: createContract called on tx without contract creation flag")
 	}
 	acc := a.GetAccount(&content.Recipient)
+	if acc.Type() != wire.AccountBasic {
+		return &InvalidForRecipientError{
+			address: content.Recipient,
+			error:   fmt.Errorf("contract already exists"),
+		}
+	}
 	var newAcc wire.Account
 	switch content.RecipientType {
 	case wire.AccountBasic:
-- 
2.43.0


From b1f6f8f614977efa90e5ea8537395bc04e25571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 30/43] fix: accounts: reject blocks without a body or height
 instead of panicking

---
 accounts/accounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index a43d342..01903f2 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -37,6 +37,12 @@ func NewAccounts(tree *tree.PMTree) *Accounts {
 
 // Push pushes a new block to the state.
 func (a *Accounts) Push(block *wire.Block) error {
+	if block.Body == nil {
+		return fmt.Errorf("block has no body")
+	}
+	if block.Header.Height < 1 {
+		return fmt.Errorf("invalid block height: %d", block.Header.Height)
+	}
 	if err := a.pushSenders(block, func(acc wire.Account, tx wire.Tx, height uint32) (wire.Account, error) {
 		return acc.ApplyOutgoingTx(tx, height)
 	}); err != nil {
-- 
2.43.0


From 28e72b14c1d18b47f4055eadc78bd4446a14c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 31/43] fix: accounts: refuse transactions declaring account
 type 255

---
 accounts/accounts.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 01903f2..f5186f8 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -107,6 +107,12 @@ func (a *Accounts) PutAccount(addr *[20]byte, acc wire.Account) {
 func (a *Accounts) pushSenders(block *wire.Block, op AccountOp) error {
 	for _, tx := range block.Body.Txs {
 		content := tx.Tx.AsTxContent()
+		if content.SenderType == wire.AccountUnknown {
+			return &InvalidForSenderError{
+				Address: content.Sender,
+				Err:     fmt.Errorf("invalid sender type: %d", content.SenderType),
+			}
+		}
 		if err := a.pushTx(&content.Sender, content.SenderType, tx.Tx, block.Header.Height, op); err != nil {
 			return err
 		}
@@ -120,6 +126,12 @@ func (a *Accounts) pushRecipients(block *wire.Block, op AccountOp) error {
 		var recipientType uint8 = wire.AccountUnknown
 		if content.Flags&wire.TxFlagContractCreation == 0 {
 			recipientType = content.RecipientType
+			if recipientType == wire.AccountUnknown {
+				return &InvalidForRecipientError{
+					address: content.Recipient,
+					error:   fmt.Errorf("invalid recipient type: %d", recipientType),
+				}
+			}
 		}
 		if err := a.pushTx(&content.Recipient, recipientType, tx.Tx, block.Header.Height, op); err != nil {
 			return err
-- 
2.43.0


From 558931dff8845a7d158b1885c7c38fc01f889236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 32/43] fix: tree: do not modify nodes owned by the store in
 place

---
 tree/node.go |  6 ++++++
 tree/tree.go | 12 ++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/tree/node.go b/tree/node.go
index 248099e..576355d 100644
--- a/tree/node.go
+++ b/tree/node.go
@@ -26,6 +26,12 @@ func (n *Branch) PutChild(suffix Nibbles, hash [32]byte) {
 	}
 }
 
+// copy returns a copy of the branch that can be modified independently.
+func (n *Branch) copy() *Branch {
+	c := *n
+	return &c
+}
+
 // GetPrefix returns the partial path of the node.
 func (n *Branch) GetPrefix() Nibbles {
 	return n.Prefix
diff --git a/tree/tree.go b/tree/tree.go
index 442814e..c71cea6 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -112,7 +112,7 @@ func (t *PMTree) update(nodePrefix, prefix Nibbles, value []byte, rootPath []Nod
 		return
 	}
 	// Node prefix matches, but branch reached. Descend.
-	node := t.Store.GetNode(nodePrefix).(*Branch)
+	node := t.getBranch(nodePrefix)
 	targetChild := node.Children[prefix[len(node.Prefix)]]
 	if targetChild.Exists {
 		// Child entry already exists where we would descend to.
@@ -136,6 +136,12 @@ func (t *PMTree) update(nodePrefix, prefix Nibbles, value []byte, rootPath []Nod
 	}
 }
 
+// getBranch returns a copy of the branch node at the specified prefix.
+// Nodes belong to the store, changes only take effect through PutNode.
+func (t *PMTree) getBranch(prefix Nibbles) *Branch {
+	return t.Store.GetNode(prefix).(*Branch).copy()
+}
+
 // invalidatePath walks the path leaf to root and invalidates the hashes along the way.
 // It also overwrites branch child references as specified in the path.
 func (t *PMTree) invalidatePath(prefix Nibbles, path []Node) {
@@ -147,6 +153,7 @@ func (t *PMTree) invalidatePath(prefix Nibbles, path []Node) {
 		path = path[:len(path)-1]
 		// Set the child to a zero hash.
 		node.PutChild(current[len(node.Prefix):], zeroHash)
+		t.Store.PutNode(node.Prefix, node)
 		current = node.Prefix
 	}
 }
@@ -175,7 +182,7 @@ func (t *PMTree) prune(prefix Nibbles, path []Node) {
 			//  [Branch 1 (nChildren = X)] => [Node X]
 			// Pruning finishes, defer to the non-pruning recursive algorithm to update the path.
 			t.Store.DelNode(node.Prefix)
-			t.invalidatePath(append(node.Prefix, children[0].Suffix...), path)
+			t.invalidatePath(append(node.Prefix[:len(node.Prefix):len(node.Prefix)], children[0].Suffix...), path)
 			return
 		} else if len(children) > 0 || len(node.Prefix) == 0 {
 			// Nothing to be deleted, use non-pruning code path.
@@ -194,6 +201,7 @@ func (t *PMTree) updateHashes(prefix Nibbles) [32]byte {
 	case *Leaf:
 		return n.Hash()
 	case *Branch:
+		n = n.copy()
 		for i := range n.Children {
 			if !n.Children[i].Exists {
 				continue
-- 
2.43.0


From 37a614e1590da5238db9844beb82b683771e70b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 33/43] fix: tree: make OverlayStore usable outside its package

---
 tree/store_overlay.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tree/store_overlay.go b/tree/store_overlay.go
index 9559798..987202a 100644
--- a/tree/store_overlay.go
+++ b/tree/store_overlay.go
@@ -17,14 +17,22 @@ func (o *OverlayStore) GetNode(nbs Nibbles) Node {
 	return o.Lower.GetNode(nbs)
 }
 
+// set records an override, the zero value of OverlayStore is ready to use.
+func (o *OverlayStore) set(nbs Nibbles, node Node) {
+	if o.diffs == nil {
+		o.diffs = make(map[string]Node)
+	}
+	o.diffs[string(nbs)] = node
+}
+
 // PutNode puts a node in the overlay without affecting the lower store.
 func (o *OverlayStore) PutNode(nbs Nibbles, node Node) {
-	o.diffs[string(nbs)] = node
+	o.set(nbs, node)
 }
 
 // DelNode marks a deletion in the overlay without affecting the lower store.
 func (o *OverlayStore) DelNode(nbs Nibbles) {
-	o.diffs[string(nbs)] = nil
+	o.set(nbs, nil)
 }
 
 // Flush clears and writes down the in-memory overlay to the lower layer.
-- 
2.43.0


From 05621ddb7baee7f25108d87f94b4ea5ddd55eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 34/43] fix: accounts: apply blocks atomically

---
 accounts/accounts.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index f5186f8..770ddda 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -43,6 +43,17 @@ func (a *Accounts) Push(block *wire.Block) error {
 	if block.Header.Height < 1 {
 		return fmt.Errorf("invalid block height: %d", block.Header.Height)
 	}
+	// Stage all changes in an overlay, so a rejected block leaves no trace.
+	overlay := &tree.OverlayStore{Lower: a.Tree.Store}
+	staged := NewAccounts(&tree.PMTree{Store: overlay})
+	if err := staged.push(block); err != nil {
+		return err
+	}
+	overlay.Flush()
+	return nil
+}
+
+func (a *Accounts) push(block *wire.Block) error {
 	if err := a.pushSenders(block, func(acc wire.Account, tx wire.Tx, height uint32) (wire.Account, error) {
 		return acc.ApplyOutgoingTx(tx, height)
 	}); err != nil {
-- 
2.43.0


From 0ae5bd5251b731764fd975156e63a85b11d7d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 35/43] fix: wire: give extended equivalents of basic txs a
 full signature proof

---
 wire/tx_basic.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wire/tx_basic.go b/wire/tx_basic.go
index de22fd7..8fa9dc6 100644
--- a/wire/tx_basic.go
+++ b/wire/tx_basic.go
@@ -22,6 +22,11 @@ func (t *BasicTx) Amount() (value uint64, fee uint64) {
 
 // AsExtendedTx returns the extended equivalent of this basic tx.
 func (t *BasicTx) AsExtendedTx() ExtendedTx {
+	// The proof of an extended tx is a full signature proof (empty Merkle path).
+	proof := make([]byte, 0, len(t.SenderPubKey)+1+len(t.Signature))
+	proof = append(proof, t.SenderPubKey[:]...)
+	proof = append(proof, 0)
+	proof = append(proof, t.Signature[:]...)
 	return ExtendedTx{
 		Sender:              PublicKeyToAddress(&t.SenderPubKey),
 		SenderType:          AccountBasic,
@@ -32,7 +37,7 @@ func (t *BasicTx) AsExtendedTx() ExtendedTx {
 		ValidityStartHeight: t.ValidityStartHeight,
 		Flags:               0,
 		Data:                nil,
-		Proof:               t.Signature[:],
+		Proof:               proof,
 		NetworkID:           t.NetworkID,
 	}
 }
-- 
2.43.0


From 2ea0bc51446034b97df6cb730fae0df57e034c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 36/43] fix: beserial: honour custom encodings of array and
 slice elements

---
 beserial/decode.go |  4 ++--
 beserial/encode.go | 20 ++++++++++++++++++--
 beserial/size.go   |  4 ++--
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index 16b47e8..cda4716 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -104,7 +104,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 		return d.value(ptrV.Elem(), ts)
 	case reflect.Array:
 		typ := v.Type()
-		if typ.Elem().Kind() == reflect.Uint8 {
+		if isByte(typ.Elem()) {
 			// Byte arrays can be copied.
 			b, err := d.pop(typ.Len())
 			if err != nil {
@@ -144,7 +144,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 				return err
 			}
 			v.SetString(string(b))
-		} else if typ.Elem().Kind() == reflect.Uint8 {
+		} else if isByte(typ.Elem()) {
 			// Byte slices can be copied.
 			b, err := d.pop(int(u))
 			if err != nil {
diff --git a/beserial/encode.go b/beserial/encode.go
index e328368..2dfa4dd 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -54,7 +54,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		return marshal(v.Elem(), b, ts)
 	case reflect.Array:
 		typ := v.Type()
-		if typ.Elem().Kind() == reflect.Uint8 {
+		if isByte(typ.Elem()) {
 			// Byte arrays can be copied.
 			b = append(b, v.Slice(0, typ.Len()).Bytes()...)
 		} else {
@@ -78,7 +78,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		typ := v.Type()
 		if kind == reflect.String {
 			b = append(b, []byte(v.String())...)
-		} else if typ.Elem().Kind() == reflect.Uint8 {
+		} else if isByte(typ.Elem()) {
 			b = append(b, v.Bytes()...)
 		} else {
 			for i := 0; i < size; i++ {
@@ -118,6 +118,22 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 	return b, nil
 }
 
+var (
+	marshalerType   = reflect.TypeOf((*Marshaler)(nil)).Elem()
+	unmarshalerType = reflect.TypeOf((*Unmarshaler)(nil)).Elem()
+)
+
+// isCustom returns whether the type overrides the default encoding.
+func isCustom(typ reflect.Type) bool {
+	ptr := reflect.PtrTo(typ)
+	return ptr.Implements(marshalerType) || ptr.Implements(unmarshalerType)
+}
+
+// isByte returns whether sequences of the type are plain byte strings.
+func isByte(typ reflect.Type) bool {
+	return typ.Kind() == reflect.Uint8 && !isCustom(typ)
+}
+
 // maxLen returns the largest length a length tag can express.
 func maxLen(kind reflect.Kind) (max uint64, ok bool) {
 	switch kind {
diff --git a/beserial/size.go b/beserial/size.go
index 4ed0adf..a6d7897 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -43,7 +43,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		total += elem
 	case reflect.Array:
 		typ := v.Type()
-		if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok {
+		if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok && !isCustom(typ.Elem()) {
 			total = typ.Len() * elemSize
 		} else {
 			for i := 0; i < typ.Len(); i++ {
@@ -63,7 +63,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		total += tagLen
 		if kind == reflect.String {
 			total += v.Len()
-		} else if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok {
+		} else if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok && !isCustom(typ.Elem()) {
 			total += v.Len() * elemSize
 		} else {
 			for i := 0; i < v.Len(); i++ {
-- 
2.43.0


From 633631925af7ce92a3de6da3cccb55d51eb42049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 37/43] fix: accounts: refuse blocks whose reward and fees
 overflow

---
 accounts/accounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 770ddda..13e0b5a 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -168,6 +168,12 @@ func (a *Accounts) pushInherents(block *wire.Block) error {
 	reward = policy.BlockReward(block.Header.Height)
 	for _, tx := range block.Body.Txs {
 		_, fee := tx.Tx.Amount()
+		if reward+fee < reward {
+			return &InvalidForRecipientError{
+				address: block.Body.MinerAddr,
+				error:   fmt.Errorf("fees overflow the block reward"),
+			}
+		}
 		reward += fee
 	}
 	coinbase := wire.BasicTx{
-- 
2.43.0


From 8d33dc3103297eb1990f7970381369b4f2207da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 38/43] fix: do not hand out the shared initial account

GetAccount returned a pointer to the global InitialAccount for addresses
without an entry. A caller that changed it changed what every other
address without an entry looks like.
---
 accounts/accounts.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 13e0b5a..0b3ebb8 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -86,7 +86,9 @@ func (a *Accounts) Revert(block *wire.Block) error {
 func (a *Accounts) GetAccount(addr *[20]byte) wire.Account {
 	buf := a.Tree.GetEntry(addr)
 	if len(buf) <= 0 {
-		return &wire.InitialAccount
+		// Copy, as the caller may modify the account it gets.
+		initial := wire.InitialAccount
+		return &initial
 	}
 	var acc wire.WrapAccount
 	n, err := acc.UnmarshalBESerial(buf)
-- 
2.43.0


From 6f09956a246b6bdc71b42e0477c95d34e2ca6fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:30 +0000
Subject: [PATCH 39/43] fix: genesis: open profiles at absolute and unclean
 paths

---
 genesis/genesis.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/genesis/genesis.go b/genesis/genesis.go
index 8e76249..3177981 100644
--- a/genesis/genesis.go
+++ b/genesis/genesis.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io/fs"
 	"os"
+	"path/filepath"
 
 	"github.com/pelletier/go-toml"
 	"terorie.dev/nimiq/accounts"
@@ -73,7 +74,12 @@ func OpenProfile(path string) (*Profile, error) {
 	case ProfileTest:
 		return openProfileFromFS(profiles, ProfileTest)
 	}
-	return openProfileFromFS(os.DirFS("."), path)
+	// Names in a file system are relative and clean, other paths are not.
+	dir, name := filepath.Split(path)
+	if dir == "" {
+		dir = "."
+	}
+	return openProfileFromFS(os.DirFS(dir), name)
 }
 
 func openProfileFromFS(files fs.FS, path string) (*Profile, error) {
-- 
2.43.0


From e1a7c6bd430b05697d00d391622fd3c3dfa462b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:39 +0000
Subject: [PATCH 40/43] fix: export_blocks: write the blocks in order

---
 scripts/export_blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/export_blocks.py b/scripts/export_blocks.py
index ca5a20d..9d1e09b 100755
--- a/scripts/export_blocks.py
+++ b/scripts/export_blocks.py
@@ -65,7 +65,7 @@ while True:
     req.raise_for_status()
     body = req.json()
     start = stop
-    sorted(body, key=lambda x: x["id"])
+    body.sort(key=lambda x: x["id"])
     for block in body:
         result = bytearray.fromhex(block["result"])
         dumper.add_block(block["id"], result)
-- 
2.43.0


From 04b141bf14d715cac0210e4e40463cb3eb52d90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:41 +0000
Subject: [PATCH 41/43] fix: export_blocks: reject a response that does not
 match the request

---
 scripts/export_blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/export_blocks.py b/scripts/export_blocks.py
index 9d1e09b..4b6bb1a 100755
--- a/scripts/export_blocks.py
+++ b/scripts/export_blocks.py
@@ -66,6 +66,8 @@ while True:
     body = req.json()
     start = stop
     body.sort(key=lambda x: x["id"])
+    if [block["id"] for block in body] != [call["id"] for call in batch]:
+        sys.exit("Response does not match the request")
     for block in body:
         result = bytearray.fromhex(block["result"])
         dumper.add_block(block["id"], result)
-- 
2.43.0


From 2754b4fa93bd4fbb9b44f02343442cf516c8428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:43 +0000
Subject: [PATCH 42/43] fix: export_blocks: export the last block

---
 scripts/export_blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/export_blocks.py b/scripts/export_blocks.py
index 4b6bb1a..4d1a585 100755
--- a/scripts/export_blocks.py
+++ b/scripts/export_blocks.py
@@ -48,7 +48,7 @@ dumper = BlockDumper(stdout)
 start = args.from_
 while True:
     batch = []
-    stop = min(start + args.batch, args.to)
+    stop = min(start + args.batch, args.to + 1)
     for n in range(start, stop):
         batch.append(
             {
-- 
2.43.0


From 3afdfb8669d07ee3780dc9bc452303b1a76ed873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:46 +0000
Subject: [PATCH 43/43] fix: export_blocks: write the manifest

---
 scripts/export_blocks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/export_blocks.py b/scripts/export_blocks.py
index 4d1a585..4b94692 100755
--- a/scripts/export_blocks.py
+++ b/scripts/export_blocks.py
@@ -44,6 +44,7 @@ class BlockDumper:
 assert not sys.stdout.isatty()
 stdout = os.fdopen(sys.stdout.fileno(), "wb", closefd=False)
 dumper = BlockDumper(stdout)
+dumper.add_block("manifest.json", b"{}".ljust(1024))
 
 start = args.from_
 while True:
-- 
2.43.0

