From 584fe3a03d7214c49816c1183feed1c68d6d5ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 01/22] fix: only strip whitespace following a join from offer
 strings

---
 offers/bech32.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/offers/bech32.go b/offers/bech32.go
index dd22b92..e7b961e 100644
--- a/offers/bech32.go
+++ b/offers/bech32.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"unicode"
 )
 
 const (
@@ -120,18 +121,20 @@ func stripOffer(offer string) (string, error) {
 	parts := strings.Split(offer, "+")
 
 	for i, part := range parts {
+		// We should allow whitespace following a "+" character. Trim
+		// this whitespace so that we can check that except for spaces,
+		// all other characters are bech32. We replace the entry in our
+		// slice to strip out these spaces.
+		if i > 0 {
+			parts[i] = strings.TrimLeftFunc(part, unicode.IsSpace)
+		}
+
 		// If any of our parts are empty, we either had consecutive or
 		// starting / ending "+" in our string.
-		if part == "" {
+		if parts[i] == "" {
 			return "", ErrIncorrectSplit
 		}
 
-		// We should allow whitespace following a "+" character. Trim
-		// all whitespace so that we can check that except for spaces,
-		// all other characters are bech32. We replace the entry in our
-		// slice to strip out these paces.
-		parts[i] = strings.TrimSpace(part)
-
 		// Check that each split is in our charset.
 		if err := checkASCII(parts[i]); err != nil {
 			return "", fmt.Errorf("%w: part: %v", err, part)
-- 
2.43.0


From 0e0221bea54b4f5542e1536793b0a47bb190c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 02/22] fix: include every unknown record, with its own value,
 in merkle root

---
 lnwire/bolt12_merkle.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 85d9f41..ef30250 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -289,9 +289,15 @@ func unknownRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
 	var records []tlv.Record
 
 	for tlvType, tlvBytes := range parsedTypes {
+		// Copy our loop variable, because it is captured by the encode
+		// closure below.
+		tlvBytes := tlvBytes
+
 		// If the value of a parsed type is not included in our map, it
 		// was recognized by our code so we don't need to include it.
-		if len(tlvBytes) == 0 {
+		// Unknown types always have a non-nil value, which is empty for
+		// zero length records.
+		if tlvBytes == nil {
 			continue
 		}
 
-- 
2.43.0


From fbfd5f7e097e6ee377e5c1313d7a848fcb7c1d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 03/22] fix: do not drop zero length final hop payloads

---
 lnwire/onion_msg_payload.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 0a4f7fd..92c85e3 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -166,8 +166,9 @@ func DecodeOnionMessagePayload(o []byte) (*OnionMessagePayload, error) {
 		}
 
 		// Skip any tlvs that have been recognized in our decoding (a
-		// zero entry means that we recognized the entry).
-		if len(tlvBytes) == 0 {
+		// nil entry means that we recognized the entry, unrecognized
+		// entries with no value are empty but not nil).
+		if tlvBytes == nil {
 			continue
 		}
 
@@ -184,8 +185,8 @@ func DecodeOnionMessagePayload(o []byte) (*OnionMessagePayload, error) {
 
 	// If we read out an invoice tlv sub-namespace, add it to our set of
 	// final payloads. This value won't have been added in the loop above,
-	// because we recognized the TLV so len(tlvMap[invoiceType].tlvBytes)
-	// will be zero (thus, skipped above).
+	// because we recognized the TLV so tlvMap[invoiceType] will be nil
+	// (thus, skipped above).
 	if _, ok := tlvMap[InvoiceNamespaceType]; ok {
 		onionPayload.FinalHopPayloads = append(
 			onionPayload.FinalHopPayloads, invoicePayload,
-- 
2.43.0


From d3859c15e94a4a0319f9cb34ab47336359c6099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 04/22] fix: calculate decoded merkle roots from the records on
 the wire

---
 lnwire/bolt12_invoice.go         |  2 +-
 lnwire/bolt12_invoice_request.go |  2 +-
 lnwire/bolt12_offer.go           |  2 +-
 lnwire/bolt12_shared.go          | 30 ++++++++++++++----------------
 4 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/lnwire/bolt12_invoice.go b/lnwire/bolt12_invoice.go
index f5f174b..5a77579 100644
--- a/lnwire/bolt12_invoice.go
+++ b/lnwire/bolt12_invoice.go
@@ -398,7 +398,7 @@ func DecodeInvoice(b []byte) (*Invoice, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index e89ee4d..3240905 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -404,7 +404,7 @@ func DecodeInvoiceRequest(b []byte) (*InvoiceRequest, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_offer.go b/lnwire/bolt12_offer.go
index c90134b..030cc75 100644
--- a/lnwire/bolt12_offer.go
+++ b/lnwire/bolt12_offer.go
@@ -342,7 +342,7 @@ func DecodeOffer(offerBytes []byte) (*Offer, error) {
 		offer.Signature = &signature
 	}
 
-	offer.MerkleRoot, err = decodeMerkleRoot(offer, tlvMap)
+	offer.MerkleRoot, err = decodeMerkleRoot(offerBytes)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_shared.go b/lnwire/bolt12_shared.go
index 47028c1..d56bfed 100644
--- a/lnwire/bolt12_shared.go
+++ b/lnwire/bolt12_shared.go
@@ -61,29 +61,27 @@ type tlvTree interface {
 }
 
 // decodeMerkleRoot produces a tlv merkle tree root for a tlv stream that we
-// have decoded. Since the sender may have populated the tree with odd tlv
-// records that are unknown to us, we include odd unknown records that were
-// parsed but not understood (by our decoding, the sender would have known
-// them) in our tree.
-func decodeMerkleRoot(recordProducer tlvTree,
-	tlvMap map[tlv.Type][]byte) (lntypes.Hash, error) {
-
-	populatedRecords, err := recordProducer.records()
+// have decoded. The tree is built from the records as they were serialized by
+// the sender, because re-encoding our decoded values would lose odd records
+// that are unknown to us and records that the sender explicitly set to their
+// default value (which we do not populate when we encode).
+func decodeMerkleRoot(tlvBytes []byte) (lntypes.Hash, error) {
+	// Decode the stream without any known records so that we get the raw
+	// value of every record.
+	stream, err := tlv.NewStream()
 	if err != nil {
-		return lntypes.Hash{}, fmt.Errorf("get records: %w", err)
+		return lntypes.Hash{}, fmt.Errorf("new stream: %w", err)
 	}
 
-	root, err := MerkleRoot(
-		append(populatedRecords, unknownRecordsFromParsed(tlvMap)...),
-	)
+	tlvMap, err := stream.DecodeWithParsedTypes(bytes.NewReader(tlvBytes))
 	if err != nil {
-		return lntypes.Hash{}, fmt.Errorf("merkle root: %w", err)
+		return lntypes.Hash{}, fmt.Errorf("decode stream: %w", err)
 	}
 
-	hash, err := lntypes.MakeHash(root[:])
+	root, err := MerkleRoot(unknownRecordsFromParsed(tlvMap))
 	if err != nil {
-		return lntypes.Hash{}, fmt.Errorf("make hash: %w", err)
+		return lntypes.Hash{}, fmt.Errorf("merkle root: %w", err)
 	}
 
-	return hash, nil
+	return root, nil
 }
-- 
2.43.0


From 747ef7f7e4f3a02b35044a1460a9c6d38c6e59e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 05/22] fix: combine merkle branches level by level

---
 lnwire/bolt12_merkle.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index ef30250..8a9f585 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -125,20 +125,29 @@ func MerkleRoot(records []tlv.Record) (lntypes.Hash, error) {
 	return lntypes.MakeHash(hash[:])
 }
 
-// CalculateRoot combines a set of branches into a merkle root.
+// CalculateRoot combines a set of branches into a merkle root. Branches are
+// combined in pairs, one level at a time. If a level has an odd number of
+// branches the last one moves up to the next level as is, so that the deepest
+// part of the tree is always on the lowest order branches.
 func CalculateRoot(branches []*TLVBranch) chainhash.Hash {
 	for len(branches) != 1 {
-		left, right := orderNodes(branches[0], branches[1])
+		level := make([]*TLVBranch, 0, (len(branches)+1)/2)
 
-		newBranch := &TLVBranch{
-			left:  left,
-			right: right,
+		for i := 0; i+1 < len(branches); i += 2 {
+			left, right := orderNodes(branches[i], branches[i+1])
+
+			level = append(level, &TLVBranch{
+				left:  left,
+				right: right,
+			})
+		}
+
+		// Carry over our final branch if it has no partner.
+		if len(branches)%2 != 0 {
+			level = append(level, branches[len(branches)-1])
 		}
 
-		// Remove the individual branches from our set, and add our
-		// combined branch.
-		branches = branches[2:]
-		branches = append(branches, newBranch)
+		branches = level
 	}
 
 	// We exit when we only have one branch left, this is our root.
-- 
2.43.0


From 4b6f70ceef289205b1256e04d7361a091395277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 06/22] fix: accept zero encoded as an empty truncated integer

---
 lnwire/tu64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lnwire/tu64.go b/lnwire/tu64.go
index 2e085dc..bf46219 100644
--- a/lnwire/tu64.go
+++ b/lnwire/tu64.go
@@ -23,7 +23,7 @@ func encodeTU64(w io.Writer, val interface{}, buf *[8]byte) error {
 // Note: lnd doesn't have this functionality on its own yet (only in mpp decode)
 // so it is added here.
 func decodeTU64(r io.Reader, val interface{}, buf *[8]byte, l uint64) error {
-	if v, ok := val.(*uint64); ok && 1 <= l && l <= 8 {
+	if v, ok := val.(*uint64); ok && l <= 8 {
 		if err := tlv.DTUint64(r, v, buf, l); err != nil {
 			return err
 		}
-- 
2.43.0


From 93340a44c4ae47186092cfddb74b96f7a1325956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 07/22] fix: serialize bolt 12 features without a length prefix

---
 lnwire/bolt12_shared.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lnwire/bolt12_shared.go b/lnwire/bolt12_shared.go
index d56bfed..be86ba2 100644
--- a/lnwire/bolt12_shared.go
+++ b/lnwire/bolt12_shared.go
@@ -25,7 +25,9 @@ func encodeFetauresRecord(recordType tlv.Type,
 
 	w := new(bytes.Buffer)
 
-	if err := features.Encode(w); err != nil {
+	// The length of our features is expressed by the tlv record, so we do
+	// not include lnd's length prefix in the value.
+	if err := features.EncodeBase256(w); err != nil {
 		return nil, fmt.Errorf("encode features: %w", err)
 	}
 
@@ -45,7 +47,9 @@ func decodeFeaturesRecord(decodedFeatures []byte,
 
 	// If we decoded a value for our feature vector, decode it.
 	if found {
-		err := rawFeatures.Decode(bytes.NewReader(decodedFeatures))
+		err := rawFeatures.DecodeBase256(
+			bytes.NewReader(decodedFeatures), len(decodedFeatures),
+		)
 		if err != nil {
 			return nil, fmt.Errorf("raw features decode: %w", err)
 		}
-- 
2.43.0


From c57980ca9620489d4292f8e88a95c7ecbf93235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 08/22] fix: refuse to encode reply paths and onions that do
 not fit their counters

---
 lnwire/onion_message.go     |  6 ++++++
 lnwire/onion_msg_payload.go | 23 +++++++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/lnwire/onion_message.go b/lnwire/onion_message.go
index e6550d6..c4ba059 100644
--- a/lnwire/onion_message.go
+++ b/lnwire/onion_message.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/btcsuite/btcd/btcec/v2"
 	lndwire "github.com/lightningnetwork/lnd/lnwire"
@@ -76,6 +77,11 @@ func (o *OnionMessage) Encode(w *bytes.Buffer, _ uint32) error {
 	}
 
 	onionLen := len(o.OnionBlob)
+	if onionLen > math.MaxUint16 {
+		return fmt.Errorf("onion blob: %w: %v bytes", ErrDataTooLong,
+			onionLen)
+	}
+
 	if err := lndwire.WriteElement(w, uint16(onionLen)); err != nil {
 		return fmt.Errorf("encode onion len: %w", err)
 	}
diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 92c85e3..124a41f 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/btcsuite/btcd/btcec/v2"
@@ -41,6 +42,14 @@ var (
 	// ErrNoHops is returned when we handle a reply path that does not
 	// have any hops (this makes no sense).
 	ErrNoHops = errors.New("reply path requires hops")
+
+	// ErrTooManyHops is returned when we try to encode a reply path that
+	// has more hops than its hop count can express.
+	ErrTooManyHops = errors.New("reply path has too many hops")
+
+	// ErrDataTooLong is returned when we try to encode data that is longer
+	// than its length field can express.
+	ErrDataTooLong = errors.New("data too long")
 )
 
 // OnionMessagePayload contains the contents of an onion message payload.
@@ -288,11 +297,16 @@ func encodeReplyPath(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded path: %w", err)
 		}
 
-		hopCount := uint8(len(p.Hops))
-		if hopCount == 0 {
+		if len(p.Hops) == 0 {
 			return ErrNoHops
 		}
 
+		if len(p.Hops) > math.MaxUint8 {
+			return fmt.Errorf("%w: %v", ErrTooManyHops, len(p.Hops))
+		}
+
+		hopCount := uint8(len(p.Hops))
+
 		if err := tlv.EUint8(w, &hopCount, buf); err != nil {
 			return fmt.Errorf("encode hop count: %w", err)
 		}
@@ -371,6 +385,11 @@ func encodeBlindedHop(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded id: %w", err)
 		}
 
+		if len(b.EncryptedData) > math.MaxUint16 {
+			return fmt.Errorf("%w: %v bytes", ErrDataTooLong,
+				len(b.EncryptedData))
+		}
+
 		dataLen := uint16(len(b.EncryptedData))
 		if err := tlv.EUint16(w, &dataLen, buf); err != nil {
 			return fmt.Errorf("data len: %w", err)
-- 
2.43.0


From fa5960a05a553918541cfcb5c2fa21bc54143fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 09/22] fix: decode reply paths within the bounds of their
 record

---
 lnwire/onion_msg_payload.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 124a41f..0574eda 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -47,6 +47,10 @@ var (
 	// has more hops than its hop count can express.
 	ErrTooManyHops = errors.New("reply path has too many hops")
 
+	// ErrTrailingData is returned when a reply path record contains data
+	// after its last hop.
+	ErrTrailingData = errors.New("unexpected data after reply path hops")
+
 	// ErrDataTooLong is returned when we try to encode data that is longer
 	// than its length field can express.
 	ErrDataTooLong = errors.New("data too long")
@@ -328,6 +332,11 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 	l uint64) error {
 
 	if p, ok := val.(*ReplyPath); ok && l > 35 {
+		// Limit our reads to the record that we're decoding, so that
+		// we can't read past it into the records that follow it.
+		limited := &io.LimitedReader{R: r, N: int64(l)}
+		r = limited
+
 		err := tlv.DPubKey(r, &p.FirstNodeID, buf, 33)
 		if err != nil {
 			return fmt.Errorf("decode first id: %w", err)
@@ -356,6 +365,11 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 			p.Hops = append(p.Hops, hop)
 		}
 
+		if limited.N != 0 {
+			return fmt.Errorf("%w: %v bytes", ErrTrailingData,
+				limited.N)
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From b08f73c5a126fd853d2a571eac9fd6f44caf322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 10/22] fix: include payloads and reply path in messages sent
 directly to blinded paths

---
 routes/blinded.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/routes/blinded.go b/routes/blinded.go
index aa904e8..315e43b 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -693,13 +693,20 @@ func createOnionMessage(sphinxPath *sphinx.PaymentPath,
 func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
 	var sphinxPath sphinx.PaymentPath
 
+	hopCount := len(req.blindedDestination.Hops)
 	for i, hop := range req.blindedDestination.Hops {
-		sphinxHop, err := createSphinxHop(
-			*hop.BlindedNodeID,
-			&lnwire.OnionMessagePayload{
-				EncryptedData: hop.EncryptedData,
-			},
-		)
+		payload := &lnwire.OnionMessagePayload{
+			EncryptedData: hop.EncryptedData,
+		}
+
+		// If we're on the last hop, add our optional final payload
+		// and reply path.
+		if i == hopCount-1 {
+			payload.FinalHopPayloads = req.finalPayloads
+			payload.ReplyPath = req.replyPath
+		}
+
+		sphinxHop, err := createSphinxHop(*hop.BlindedNodeID, payload)
 		if err != nil {
 			return nil, fmt.Errorf("sphinx hop "+
 				"%v: %w", i, err)
-- 
2.43.0


From 6aa49e4b4babfe1ec6f99f65058ba5f78ef75908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 11/22] fix: fail route requests that exceed the maximum hop
 count

---
 routes/blinded.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/routes/blinded.go b/routes/blinded.go
index 315e43b..b1d2819 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -53,6 +53,10 @@ var (
 	// the final hop in a path provided for a send to a blinded route.
 	ErrNoIntroductionNode = errors.New("introduction node should be " +
 		"final hop when sending to a blinded path")
+
+	// ErrTooManyHops is returned when a route has more hops than we can
+	// include in an onion packet.
+	ErrTooManyHops = errors.New("too many hops in route")
 )
 
 // BlindedRouteGenerator produces blinded routes.
@@ -563,6 +567,10 @@ func blindedToSphinx(blindedRoute *sphinx.BlindedPath,
 		extraHopCount = len(extraHops)
 	)
 
+	if err := checkHopCount(ourHopCount + extraHopCount); err != nil {
+		return nil, err
+	}
+
 	// Fill in the blinded node id and encrypted data for all hops. This
 	// requirement differs from blinded hops used for payments, where we
 	// don't use the blinded introduction node id. However, since onion
@@ -627,6 +635,17 @@ func blindedToSphinx(blindedRoute *sphinx.BlindedPath,
 	return &sphinxPath, nil
 }
 
+// checkHopCount returns an error if a path has more hops than can be included
+// in a sphinx path.
+func checkHopCount(hopCount int) error {
+	if hopCount > sphinx.NumMaxHops {
+		return fmt.Errorf("%w: %v > %v", ErrTooManyHops, hopCount,
+			sphinx.NumMaxHops)
+	}
+
+	return nil
+}
+
 // createSphinxHop encodes an onion message payload and produces a sphinx
 // onion hop for it.
 func createSphinxHop(nodeID btcec.PublicKey,
@@ -694,6 +713,10 @@ func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
 	var sphinxPath sphinx.PaymentPath
 
 	hopCount := len(req.blindedDestination.Hops)
+	if err := checkHopCount(hopCount); err != nil {
+		return nil, err
+	}
+
 	for i, hop := range req.blindedDestination.Hops {
 		payload := &lnwire.OnionMessagePayload{
 			EncryptedData: hop.EncryptedData,
-- 
2.43.0


From a32c53c3f3a31d4b497d5ac0c37bae1c66d15031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 12/22] fix: do not modify route requests when creating blinded
 routes

---
 routes/blinded.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/routes/blinded.go b/routes/blinded.go
index b1d2819..82a7b1a 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -398,6 +398,7 @@ func CreateBlindedRoute(req *BlindedRouteRequest) (*BlindedRouteResponse,
 	// We save this value so that we can tell the caller who to dispatch
 	// the message to.
 	firstNode := req.hops[0]
+	routeHops := req.hops
 
 	// We don't actually want to blind the introduction node (because we
 	// already have its blinded pubkey + encrypted data blob from the reply
@@ -407,8 +408,7 @@ func CreateBlindedRoute(req *BlindedRouteRequest) (*BlindedRouteResponse,
 		// Trim our introduction node off of the set of hops to be
 		// blinded (we've already checked in validation that this is
 		// indeed the final hop).
-		hopCount := len(req.hops)
-		req.hops = req.hops[:hopCount-1]
+		routeHops = routeHops[:len(routeHops)-1]
 
 		// Once we've trimmed our introduction node, we may have no
 		// hops left if we were directly connected to the introduction
@@ -416,7 +416,7 @@ func CreateBlindedRoute(req *BlindedRouteRequest) (*BlindedRouteResponse,
 		// that node). In this edge case, we can just send our onion
 		// message to the blinded path provided, since we're not
 		// pre-pending any other hops to it.
-		if len(req.hops) == 0 {
+		if len(routeHops) == 0 {
 			return req.directToBlinded(req)
 		}
 	}
@@ -424,7 +424,7 @@ func CreateBlindedRoute(req *BlindedRouteRequest) (*BlindedRouteResponse,
 	// Create a set of hops and corresponding blobs to be encrypted which
 	// form the route for our blinded path.
 	hops, err := createPathToBlind(
-		req.hops, req.blindedStart(), req.encodeBlindedData,
+		routeHops, req.blindedStart(), req.encodeBlindedData,
 	)
 	if err != nil {
 		return nil, fmt.Errorf("path to blind: %w", err)
-- 
2.43.0


From e0fbe448b3ab6937a559eaf17e8701c4a84e6878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 13/22] fix: refuse incomplete blinded destinations and paths

---
 routes/blinded.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/routes/blinded.go b/routes/blinded.go
index 82a7b1a..cde64cb 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -54,6 +54,10 @@ var (
 	ErrNoIntroductionNode = errors.New("introduction node should be " +
 		"final hop when sending to a blinded path")
 
+	// ErrPubkeyRequired is returned when a node's public key is missing
+	// from a route request.
+	ErrPubkeyRequired = errors.New("pubkey required")
+
 	// ErrTooManyHops is returned when a route has more hops than we can
 	// include in an onion packet.
 	ErrTooManyHops = errors.New("too many hops in route")
@@ -309,6 +313,12 @@ func (r *BlindedRouteRequest) validate() error {
 		return ErrBlindingKeyRequired
 	}
 
+	for i, hop := range r.hops {
+		if hop == nil {
+			return fmt.Errorf("%w: hop %v", ErrPubkeyRequired, i)
+		}
+	}
+
 	// If we don't have a blinded destination, we don't need to perform
 	// any further validation.
 	if r.blindedDestination == nil {
@@ -321,6 +331,10 @@ func (r *BlindedRouteRequest) validate() error {
 	lastHop := r.hops[len(r.hops)-1]
 	introNode := r.blindedDestination.FirstNodeID
 
+	if introNode == nil {
+		return fmt.Errorf("%w: introduction node", ErrPubkeyRequired)
+	}
+
 	if !bytes.Equal(
 		lastHop.SerializeCompressed(),
 		introNode.SerializeCompressed(),
@@ -394,6 +408,12 @@ func CreateBlindedRoute(req *BlindedRouteRequest) (*BlindedRouteResponse,
 		return nil, fmt.Errorf("invalid request: %w", err)
 	}
 
+	// If we're sending to a blinded destination, we need all of its keys
+	// and at least one hop to deliver our payloads to.
+	if err := checkBlindedDestination(req.blindedDestination); err != nil {
+		return nil, fmt.Errorf("blinded destination: %w", err)
+	}
+
 	// Save the unblinded pubkey of the first node we need to connect to.
 	// We save this value so that we can tell the caller who to dispatch
 	// the message to.
@@ -462,6 +482,31 @@ func CreateBlindedRoute(req *BlindedRouteRequest) (*BlindedRouteResponse,
 	}, nil
 }
 
+// checkBlindedDestination checks that a blinded destination (if any) contains
+// everything that is required to send a message to it.
+func checkBlindedDestination(dest *lnwire.ReplyPath) error {
+	if dest == nil {
+		return nil
+	}
+
+	if dest.BlindingPoint == nil {
+		return fmt.Errorf("%w: blinding point", ErrPubkeyRequired)
+	}
+
+	if len(dest.Hops) == 0 {
+		return lnwire.ErrNoHops
+	}
+
+	for i, hop := range dest.Hops {
+		if hop == nil || hop.BlindedNodeID == nil {
+			return fmt.Errorf("%w: blinded hop %v",
+				ErrPubkeyRequired, i)
+		}
+	}
+
+	return nil
+}
+
 // encodeBlindedPayload is the function signature used to encode a TLV stream
 // of blinded route data for onion messages.
 type encodeBlindedPayload func(*lnwire.BlindedRouteData) ([]byte, error)
-- 
2.43.0


From 9f66d87d9b038fc0a942d77d8452bb9824aa897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 14/22] fix: treat offers with only one quantity bound as
 having a quantity range

---
 lnwire/bolt12_invoice_request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index 3240905..dbbae36 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -138,7 +138,7 @@ func NewInvoiceRequest(offer *Offer, amount lnwire.MilliSatoshi,
 		haveMinQuantity = offer.QuantityMin != 0
 		haveMaxQuantity = offer.QuantityMax != 0
 
-		quantitySpecified = haveMinQuantity && haveMaxQuantity
+		quantitySpecified = haveMinQuantity || haveMaxQuantity
 	)
 
 	// Fail if the offer has a quantity range but the request does not set
-- 
2.43.0


From 9db942d8ae38bf99457e8e1d82e5d4699645c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 15/22] fix: release blocked payload handler before
 deregistering subscription

---
 rpcserver/impl_subscribe_onion_payload.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rpcserver/impl_subscribe_onion_payload.go b/rpcserver/impl_subscribe_onion_payload.go
index 9427e0b..83ac889 100644
--- a/rpcserver/impl_subscribe_onion_payload.go
+++ b/rpcserver/impl_subscribe_onion_payload.go
@@ -62,6 +62,13 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	messenger onionmsg.OnionMessenger,
 	send func(*offersrpc.SubscribeOnionPayloadResponse) error) error {
 
+	// Create a child context that is canceled when we exit for any reason,
+	// so that our handler will not block the messenger waiting for us to
+	// consume messages once we're done. It needs to be canceled before we
+	// deregister our handler, because the messenger can't process our
+	// deregistration while it is blocked on our handler.
+	ctx, cancel := context.WithCancel(ctx)
+
 	// Create an onion message handler which will consume messages from
 	// our incoming channel, dropping messages if our server is shut down
 	// or the client cancels their context.
@@ -89,6 +96,8 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	// Register our handler with the messenger, and deregister it on
 	// exit.
 	if err := messenger.RegisterHandler(tlvType, handler); err != nil {
+		cancel()
+
 		return status.Errorf(
 			codes.Unavailable, "could not register "+
 				"subscription: %v", err,
@@ -96,6 +105,8 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	}
 
 	defer func() {
+		cancel()
+
 		if err := messenger.DeregisterHandler(tlvType); err != nil {
 			log.Errorf("Deregister handler: %v failed: %v",
 				tlvType, err)
-- 
2.43.0


From 0148ce8ad3703205d8db5c5a6ae66a56e597a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 16/22] fix: do not overflow connection attempts for maximum
 retry count

---
 boltnd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boltnd.go b/boltnd.go
index 6ad6cdd..d25c860 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -71,7 +71,7 @@ func (b *Boltnd) Start() error {
 	// We allow zero retires, so we iterate with retries + 1 to allow at
 	// least one connection attempt for lnd.
 	var connErr error
-	for i := 0; i < int(b.cfg.LNDRetires+1); i++ {
+	for i := 0; i < int(b.cfg.LNDRetires)+1; i++ {
 		log.Infof("Attempt: %v to connect to lnd", i)
 
 		b.lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
-- 
2.43.0


From ad994cce6fa2e301c7ebdf2060608fe5c27550c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 17/22] fix: do not crash when connecting to a node without an
 announcement

---
 onionmsg/messenger.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index bba4af2..f74434e 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -471,7 +471,9 @@ func (m *Messenger) lookupAndConnect(ctx context.Context,
 		return fmt.Errorf("could not lookup node: %w", err)
 	}
 
-	if len(info.Addresses) == 0 {
+	// If we don't have node information, we don't have this node's
+	// announcement (which would carry its addresses).
+	if info.Node == nil || len(info.Addresses) == 0 {
 		return fmt.Errorf("%w: %v", ErrNoAddresses, peer)
 	}
 
-- 
2.43.0


From 8b6398082a73433d90df4d98c3d79c7a35885c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 18/22] fix: recognize lnd's errors for a destination without a
 path

---
 onionmsg/messenger.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index f74434e..63f9481 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -18,11 +18,20 @@ import (
 	lndwire "github.com/lightningnetwork/lnd/lnwire"
 	"github.com/lightningnetwork/lnd/routing/route"
 	"github.com/lightningnetwork/lnd/tlv"
+	"google.golang.org/grpc/status"
 )
 
 const (
 	lookupPeerBackoffDefault  = time.Second * 1
 	lookupPeerAttemptsDefault = 5
+
+	// lndNoPathFound is the message of the error that lnd returns when
+	// there is no path to the destination of a route query.
+	lndNoPathFound = "unable to find a path to destination"
+
+	// lndInsufficientBalance is the message of the error that lnd returns
+	// for a route query when it has no channel to send along.
+	lndInsufficientBalance = "insufficient local balance"
 )
 
 var (
@@ -549,6 +558,27 @@ func queryRoutesRequest(peer *btcec.PublicKey) lndclient.QueryRoutesRequest {
 	}
 }
 
+// isNoRoute returns a boolean indicating whether a query for a route failed
+// because there is none. Lnd reports this with an error that reaches us over
+// grpc, so it can only be recognized by its message.
+func isNoRoute(err error) bool {
+	if err == nil {
+		return false
+	}
+
+	if errors.Is(err, lndclient.ErrNoRouteFound) {
+		return true
+	}
+
+	switch status.Convert(err).Message() {
+	case lndNoPathFound, lndInsufficientBalance:
+		return true
+
+	default:
+		return false
+	}
+}
+
 // multiHopPath finds a path from our node to the target that can be used
 // to relay onion messages. If no path is found, a nil path will be returned.
 //
@@ -558,12 +588,12 @@ func multiHopPath(ctx context.Context, lnd LndOnionMsg, peer *btcec.PublicKey) (
 	[]*btcec.PublicKey, error) {
 
 	resp, err := lnd.QueryRoutes(ctx, queryRoutesRequest(peer))
-	switch err {
+	switch {
 	// If we can't find any routes, return a nil path.
-	case lndclient.ErrNoRouteFound:
+	case isNoRoute(err):
 		return nil, nil
 
-	case nil:
+	case err == nil:
 		path := make([]*btcec.PublicKey, len(resp.Hops))
 
 		for i, hop := range resp.Hops {
-- 
2.43.0


From a89b8d1fa28b55d25965f689b676c68cf99c3fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 19/22] fix: hand off all payloads of a message when a handler
 fails

A handler that failed, for example because its subscriber canceled, made
us drop the payloads of other types that arrived in the same message.
---
 onionmsg/messenger.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index 63f9481..1fee5a8 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -889,7 +889,10 @@ func handleOnionMessage(msg lndclient.CustomMessage,
 		}
 
 		// For each of our final hop payloads, identify a handling
-		// function (if any) and handoff the payload.
+		// function (if any) and handoff the payload. The payloads are
+		// independent of each other, so a handler that fails does not
+		// prevent us from handing off the rest.
+		var handlerErr error
 		for _, extraData := range payload.FinalHopPayloads {
 			handler, ok := kit.handlers[extraData.TLVType]
 			if !ok {
@@ -902,17 +905,27 @@ func handleOnionMessage(msg lndclient.CustomMessage,
 			log.Debugf("Handing off TLV: %v / %w to handler",
 				extraData.TLVType, extraData.Value)
 
-			if err := handler(
+			err := handler(
 				payload.ReplyPath, payload.EncryptedData,
 				extraData.Value,
-			); err != nil {
-				return fmt.Errorf("handler for: %v/%x "+
-					"failed: %w", extraData.TLVType,
-					extraData.Value, err)
+			)
+			if err == nil {
+				continue
 			}
+
+			err = fmt.Errorf("handler for: %v/%x failed: %w",
+				extraData.TLVType, extraData.Value, err)
+
+			// Return our first error, just log the rest.
+			if handlerErr == nil {
+				handlerErr = err
+				continue
+			}
+
+			log.Error(err)
 		}
 
-		return nil
+		return handlerErr
 
 	// We don't support forwarding at present, so we fail if an onion with
 	// more hops is received.
-- 
2.43.0


From 966f71366a7cd612e1b8ed4ae1663786de060b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 20/22] fix: require the minimum build tags when validating
 config

Only the version was compared, although the minimum version lists the
build tags that the connected lnd needs.
---
 config.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/config.go b/config.go
index 4b775a2..1363916 100644
--- a/config.go
+++ b/config.go
@@ -102,6 +102,12 @@ func (c *Config) Validate() error {
 		return err
 	}
 
+	if err := assertBuildTags(
+		c.LndClientCfg.CheckVersion, MinimumLNDVersion,
+	); err != nil {
+		return err
+	}
+
 	if c.LNDWait < 0 {
 		return fmt.Errorf("wait: %v must be > 0", c.LNDWait)
 	}
@@ -109,6 +115,24 @@ func (c *Config) Validate() error {
 	return nil
 }
 
+// assertBuildTags makes sure that a required lnd version includes all of the
+// build tags in the minimum version provided.
+func assertBuildTags(actual, minimum *verrpc.Version) error {
+	tags := make(map[string]struct{}, len(actual.BuildTags))
+	for _, tag := range actual.BuildTags {
+		tags[tag] = struct{}{}
+	}
+
+	for _, tag := range minimum.BuildTags {
+		if _, ok := tags[tag]; !ok {
+			return fmt.Errorf("%w: %v", lndclient.ErrBuildTagsMissing,
+				tag)
+		}
+	}
+
+	return nil
+}
+
 // ConfigOption is the function signature used for functional options that
 // update config.
 type ConfigOption func(*Config) error
-- 
2.43.0


From 734b2e4233ee83d3f0ed158ee494e2dd58834a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 21/22] fix: fail registrations when the message stream is gone

The loop that serves registrations exits when our stream from lnd fails.
From then on (de)registering a handler, and thereby a subscription whose
client canceled, hung until the messenger was stopped.
---
 onionmsg/messenger.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index 1fee5a8..1468d5f 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -176,6 +176,11 @@ type Messenger struct {
 	// signal to calling code that it should gracefully exit.
 	requestShutdown func(err error)
 
+	// done is closed when we no longer process messages and registrations,
+	// either because we have been stopped or because our stream of
+	// messages from lnd failed.
+	done chan struct{}
+
 	wg   sync.WaitGroup
 	quit chan struct{}
 }
@@ -196,6 +201,7 @@ func NewOnionMessenger(params *chaincfg.Params, lnd LndOnionMsg,
 		onionMsgHandlers:    make(map[tlv.Type]OnionMessageHandler),
 		handlerRegistration: make(chan *registerHandler),
 		requestShutdown:     shutdown,
+		done:                make(chan struct{}),
 		quit:                make(chan struct{}),
 	}
 }
@@ -216,6 +222,7 @@ func (m *Messenger) Start() error {
 		defer m.wg.Done()
 
 		err := m.manageOnionMessages(context.Background())
+		close(m.done)
 		if err != nil && err != ErrShuttingDown {
 			m.requestShutdown(err)
 		}
@@ -290,6 +297,10 @@ func (m *Messenger) handleRegistration(request *registerHandler,
 	select {
 	case m.handlerRegistration <- request:
 
+	case <-m.done:
+		return fmt.Errorf("%w: could not %v: %v",
+			ErrShuttingDown, action, request.tlvType)
+
 	case <-m.quit:
 		return fmt.Errorf("%w: could not %v: %v",
 			ErrShuttingDown, action, request.tlvType)
@@ -308,6 +319,10 @@ func (m *Messenger) handleRegistration(request *registerHandler,
 		return fmt.Errorf("%w: %v failed: %v", err, action,
 			request.tlvType)
 
+	case <-m.done:
+		return fmt.Errorf("%w: no %v response  %v",
+			ErrShuttingDown, action, request.tlvType)
+
 	case <-m.quit:
 		return fmt.Errorf("%w: no %v response  %v",
 			ErrShuttingDown, action, request.tlvType)
-- 
2.43.0


From 72a7eae6aa5d73e38f3b809396fbdab60e965a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 22/22] fix: refuse to encode reply paths with missing keys

---
 lnwire/onion_msg_payload.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 0574eda..5e1a8f4 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -43,6 +43,10 @@ var (
 	// have any hops (this makes no sense).
 	ErrNoHops = errors.New("reply path requires hops")
 
+	// ErrPathKeyRequired is returned when we try to encode a reply path
+	// that does not have all of its keys set.
+	ErrPathKeyRequired = errors.New("reply path requires key")
+
 	// ErrTooManyHops is returned when we try to encode a reply path that
 	// has more hops than its hop count can express.
 	ErrTooManyHops = errors.New("reply path has too many hops")
@@ -74,6 +78,10 @@ func EncodeOnionMessagePayload(o *OnionMessagePayload) ([]byte, error) {
 	var records []tlv.Record
 
 	if o.ReplyPath != nil {
+		if err := o.ReplyPath.checkKeys(); err != nil {
+			return nil, err
+		}
+
 		records = append(records, o.ReplyPath.record())
 	}
 
@@ -269,6 +277,26 @@ type ReplyPath struct {
 	Hops []*BlindedHop
 }
 
+// checkKeys returns an error if a reply path does not have all of the keys that
+// it needs to be encoded.
+func (r *ReplyPath) checkKeys() error {
+	if r.FirstNodeID == nil {
+		return fmt.Errorf("%w: first node id", ErrPathKeyRequired)
+	}
+
+	if r.BlindingPoint == nil {
+		return fmt.Errorf("%w: blinding point", ErrPathKeyRequired)
+	}
+
+	for i, hop := range r.Hops {
+		if hop == nil || hop.BlindedNodeID == nil {
+			return fmt.Errorf("%w: hop %v", ErrPathKeyRequired, i)
+		}
+	}
+
+	return nil
+}
+
 // record produces a tlv record for a reply path.
 func (r *ReplyPath) record() tlv.Record {
 	return tlv.MakeDynamicRecord(
-- 
2.43.0

