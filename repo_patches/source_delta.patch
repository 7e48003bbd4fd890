From 1309cc7730352b466682e34fcb2b6dda815ac617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 01/21] fix: include final payloads and reply path when sending
 directly to a blinded path

When the first hop of our path is the introduction node of the blinded
destination, the message was created without the final hop payloads and
reply path, so the recipient received an empty message.
---
 routes/blinded.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/routes/blinded.go b/routes/blinded.go
index aa904e8..6b736cb 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -691,15 +691,25 @@ func createOnionMessage(sphinxPath *sphinx.PaymentPath,
 // recipient, and we don't need to append any of our hops onto the blinded
 // route.
 func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
-	var sphinxPath sphinx.PaymentPath
+	var (
+		sphinxPath sphinx.PaymentPath
+
+		hopCount = len(req.blindedDestination.Hops)
+	)
 
 	for i, hop := range req.blindedDestination.Hops {
-		sphinxHop, err := createSphinxHop(
-			*hop.BlindedNodeID,
-			&lnwire.OnionMessagePayload{
-				EncryptedData: hop.EncryptedData,
-			},
-		)
+		payload := &lnwire.OnionMessagePayload{
+			EncryptedData: hop.EncryptedData,
+		}
+
+		// The last hop in the blinded destination is the recipient of
+		// our message, so it gets our final payloads and reply path.
+		if i == hopCount-1 {
+			payload.FinalHopPayloads = req.finalPayloads
+			payload.ReplyPath = req.replyPath
+		}
+
+		sphinxHop, err := createSphinxHop(*hop.BlindedNodeID, payload)
 		if err != nil {
 			return nil, fmt.Errorf("sphinx hop "+
 				"%v: %w", i, err)
-- 
2.43.0


From 3bdcb872fde9c92e3007cc94ed28d6a381fd1e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 02/21] fix: error out rather than panic on paths that are too
 long for an onion

Paths with more than the maximum number of sphinx hops (for example, a
blinded destination provided over rpc) indexed out of the range of the
fixed size sphinx path and crashed the process.
---
 routes/blinded.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/routes/blinded.go b/routes/blinded.go
index 6b736cb..173eec9 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -49,6 +49,10 @@ var (
 	// from a routes request.
 	ErrBlindingKeyRequired = errors.New("blinding key required")
 
+	// ErrTooManyHops is returned when a path has more hops than can be
+	// included in an onion.
+	ErrTooManyHops = errors.New("too many hops for onion message")
+
 	// ErrNoIntroductionNode is returned when our introduction node is not
 	// the final hop in a path provided for a send to a blinded route.
 	ErrNoIntroductionNode = errors.New("introduction node should be " +
@@ -563,6 +567,10 @@ func blindedToSphinx(blindedRoute *sphinx.BlindedPath,
 		extraHopCount = len(extraHops)
 	)
 
+	if err := checkHopCount(ourHopCount + extraHopCount); err != nil {
+		return nil, err
+	}
+
 	// Fill in the blinded node id and encrypted data for all hops. This
 	// requirement differs from blinded hops used for payments, where we
 	// don't use the blinded introduction node id. However, since onion
@@ -627,6 +635,16 @@ func blindedToSphinx(blindedRoute *sphinx.BlindedPath,
 	return &sphinxPath, nil
 }
 
+// checkHopCount returns an error if a path does not fit in an onion.
+func checkHopCount(hopCount int) error {
+	if hopCount > sphinx.NumMaxHops {
+		return fmt.Errorf("%w: %v > %v", ErrTooManyHops, hopCount,
+			sphinx.NumMaxHops)
+	}
+
+	return nil
+}
+
 // createSphinxHop encodes an onion message payload and produces a sphinx
 // onion hop for it.
 func createSphinxHop(nodeID btcec.PublicKey,
@@ -697,6 +715,10 @@ func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
 		hopCount = len(req.blindedDestination.Hops)
 	)
 
+	if err := checkHopCount(hopCount); err != nil {
+		return nil, err
+	}
+
 	for i, hop := range req.blindedDestination.Hops {
 		payload := &lnwire.OnionMessagePayload{
 			EncryptedData: hop.EncryptedData,
-- 
2.43.0


From ad3a393c77ad3744a2446160f96cf22575a64d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 03/21] fix: combine merkle tree branches level by level

BOLT 12 combines each level of the tree pairwise, moving an unpaired node
up to the next level. Appending combined branches to the end of the queue
instead pairs the unpaired branch with branches from the next level, so
the root was wrong for some branch counts (for example, 5).
---
 lnwire/bolt12_merkle.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 85d9f41..7c90340 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -125,20 +125,31 @@ func MerkleRoot(records []tlv.Record) (lntypes.Hash, error) {
 	return lntypes.MakeHash(hash[:])
 }
 
-// CalculateRoot combines a set of branches into a merkle root.
+// CalculateRoot combines a set of branches into a merkle root. Each level of
+// the tree is combined pairwise, and a final unpaired branch moves up to the
+// next level unchanged.
 func CalculateRoot(branches []*TLVBranch) chainhash.Hash {
 	for len(branches) != 1 {
-		left, right := orderNodes(branches[0], branches[1])
+		nextLevel := make([]*TLVBranch, 0, (len(branches)+1)/2)
 
-		newBranch := &TLVBranch{
-			left:  left,
-			right: right,
+		for i := 0; i+1 < len(branches); i += 2 {
+			left, right := orderNodes(branches[i], branches[i+1])
+
+			nextLevel = append(nextLevel, &TLVBranch{
+				left:  left,
+				right: right,
+			})
+		}
+
+		// If we have an odd number of branches, there is nothing to
+		// combine the last one with at this level.
+		if len(branches)%2 != 0 {
+			nextLevel = append(
+				nextLevel, branches[len(branches)-1],
+			)
 		}
 
-		// Remove the individual branches from our set, and add our
-		// combined branch.
-		branches = branches[2:]
-		branches = append(branches, newBranch)
+		branches = nextLevel
 	}
 
 	// We exit when we only have one branch left, this is our root.
-- 
2.43.0


From a8daf4e9e47a4da7cb4c29f37e216cd0c368fe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 04/21] fix: reject offer strings where a + does not join
 bech32 characters

The check for empty parts ran before whitespace was trimmed, so an offer
that started with "+ " or ended with "+ " was not rejected.
---
 offers/bech32.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/offers/bech32.go b/offers/bech32.go
index dd22b92..305a28e 100644
--- a/offers/bech32.go
+++ b/offers/bech32.go
@@ -120,18 +120,19 @@ func stripOffer(offer string) (string, error) {
 	parts := strings.Split(offer, "+")
 
 	for i, part := range parts {
-		// If any of our parts are empty, we either had consecutive or
-		// starting / ending "+" in our string.
-		if part == "" {
-			return "", ErrIncorrectSplit
-		}
-
 		// We should allow whitespace following a "+" character. Trim
 		// all whitespace so that we can check that except for spaces,
 		// all other characters are bech32. We replace the entry in our
 		// slice to strip out these paces.
 		parts[i] = strings.TrimSpace(part)
 
+		// If any of our parts are empty (without whitespace), we
+		// either had consecutive or starting / ending "+" in our
+		// string.
+		if parts[i] == "" {
+			return "", ErrIncorrectSplit
+		}
+
 		// Check that each split is in our charset.
 		if err := checkASCII(parts[i]); err != nil {
 			return "", fmt.Errorf("%w: part: %v", err, part)
-- 
2.43.0


From fe82f5a635195de741786eae56a2a0bef0132abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 05/21] fix: write each unknown record's own value in merkle
 leaves

The encode closure captured the loop variable, so all unknown records were
hashed with the value of whichever record was last visited.
---
 lnwire/bolt12_merkle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 7c90340..3669165 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -306,6 +306,10 @@ func unknownRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
 			continue
 		}
 
+		// Copy our loop variable so that each record's closure below
+		// writes its own value.
+		tlvBytes := tlvBytes
+
 		// Create a record that just writes whatever bytes we have for
 		// the TLV value. Any encoding specifics will be included in
 		// these bytes, because we've just read them straight out of the
-- 
2.43.0


From 8825a815b32530d1bbb682d627601f89c1518489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 06/21] fix: do not drop unknown tlvs that have no value

A parsed type maps to nil if it was recognized, and to a non-nil empty
slice if it is unknown and has no value. Unknown empty records were left
out of merkle roots and final hop payloads.
---
 lnwire/bolt12_merkle.go     | 7 ++++---
 lnwire/onion_msg_payload.go | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 3669165..4e2b744 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -300,9 +300,10 @@ func unknownRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
 	var records []tlv.Record
 
 	for tlvType, tlvBytes := range parsedTypes {
-		// If the value of a parsed type is not included in our map, it
-		// was recognized by our code so we don't need to include it.
-		if len(tlvBytes) == 0 {
+		// If the value of a parsed type is nil in our map, it was
+		// recognized by our code so we don't need to include it (an
+		// unknown record with no value is non-nil and empty).
+		if tlvBytes == nil {
 			continue
 		}
 
diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 0a4f7fd..6b19fc9 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -166,8 +166,9 @@ func DecodeOnionMessagePayload(o []byte) (*OnionMessagePayload, error) {
 		}
 
 		// Skip any tlvs that have been recognized in our decoding (a
-		// zero entry means that we recognized the entry).
-		if len(tlvBytes) == 0 {
+		// nil entry means that we recognized the entry, an unknown tlv
+		// with no value is non-nil and empty).
+		if tlvBytes == nil {
 			continue
 		}
 
-- 
2.43.0


From 3e534a4aa6bcdfecf6b12a22b3407fccf2d8452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 07/21] fix: calculate merkle roots from the tlvs that were
 received

Re-encoding decoded fields loses or changes records that we would not have
encoded the same way (for example, empty strings or zero values), so the
root and signature digest of such messages did not match what was signed.
---
 lnwire/bolt12_invoice.go         |  2 +-
 lnwire/bolt12_invoice_request.go |  2 +-
 lnwire/bolt12_offer.go           |  2 +-
 lnwire/bolt12_shared.go          | 27 +++++++++++++++------------
 4 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/lnwire/bolt12_invoice.go b/lnwire/bolt12_invoice.go
index f5f174b..5a77579 100644
--- a/lnwire/bolt12_invoice.go
+++ b/lnwire/bolt12_invoice.go
@@ -398,7 +398,7 @@ func DecodeInvoice(b []byte) (*Invoice, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index e89ee4d..3240905 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -404,7 +404,7 @@ func DecodeInvoiceRequest(b []byte) (*InvoiceRequest, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_offer.go b/lnwire/bolt12_offer.go
index c90134b..030cc75 100644
--- a/lnwire/bolt12_offer.go
+++ b/lnwire/bolt12_offer.go
@@ -342,7 +342,7 @@ func DecodeOffer(offerBytes []byte) (*Offer, error) {
 		offer.Signature = &signature
 	}
 
-	offer.MerkleRoot, err = decodeMerkleRoot(offer, tlvMap)
+	offer.MerkleRoot, err = decodeMerkleRoot(offerBytes)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_shared.go b/lnwire/bolt12_shared.go
index 47028c1..7acaed0 100644
--- a/lnwire/bolt12_shared.go
+++ b/lnwire/bolt12_shared.go
@@ -61,21 +61,24 @@ type tlvTree interface {
 }
 
 // decodeMerkleRoot produces a tlv merkle tree root for a tlv stream that we
-// have decoded. Since the sender may have populated the tree with odd tlv
-// records that are unknown to us, we include odd unknown records that were
-// parsed but not understood (by our decoding, the sender would have known
-// them) in our tree.
-func decodeMerkleRoot(recordProducer tlvTree,
-	tlvMap map[tlv.Type][]byte) (lntypes.Hash, error) {
-
-	populatedRecords, err := recordProducer.records()
+// have received. The tree covers the exact bytes that were sent to us, because
+// re-encoding our decoded fields would not reproduce records that we don't know
+// or records that we would have encoded differently (or not at all, if they
+// are empty).
+func decodeMerkleRoot(tlvStream []byte) (lntypes.Hash, error) {
+	// Decode with an empty set of records so that we get the raw value
+	// for every type in the stream.
+	stream, err := tlv.NewStream()
 	if err != nil {
-		return lntypes.Hash{}, fmt.Errorf("get records: %w", err)
+		return lntypes.Hash{}, fmt.Errorf("new stream: %w", err)
 	}
 
-	root, err := MerkleRoot(
-		append(populatedRecords, unknownRecordsFromParsed(tlvMap)...),
-	)
+	tlvMap, err := stream.DecodeWithParsedTypes(bytes.NewReader(tlvStream))
+	if err != nil {
+		return lntypes.Hash{}, fmt.Errorf("decode raw records: %w", err)
+	}
+
+	root, err := MerkleRoot(unknownRecordsFromParsed(tlvMap))
 	if err != nil {
 		return lntypes.Hash{}, fmt.Errorf("merkle root: %w", err)
 	}
-- 
2.43.0


From 7a9a89bc2464e194f12d14b76587e2784f1c411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 08/21] fix: fail to encode onion message lengths that overflow

Hop counts over 255 and data over 65535 bytes were silently truncated when
their length was written, producing messages that decode incorrectly.
---
 lnwire/onion_message.go     |  6 ++++++
 lnwire/onion_msg_payload.go | 19 +++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/lnwire/onion_message.go b/lnwire/onion_message.go
index e6550d6..1da4cb3 100644
--- a/lnwire/onion_message.go
+++ b/lnwire/onion_message.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/btcsuite/btcd/btcec/v2"
 	lndwire "github.com/lightningnetwork/lnd/lnwire"
@@ -76,6 +77,11 @@ func (o *OnionMessage) Encode(w *bytes.Buffer, _ uint32) error {
 	}
 
 	onionLen := len(o.OnionBlob)
+	if onionLen > math.MaxUint16 {
+		return fmt.Errorf("onion blob: %w: %v", ErrDataTooLong,
+			onionLen)
+	}
+
 	if err := lndwire.WriteElement(w, uint16(onionLen)); err != nil {
 		return fmt.Errorf("encode onion len: %w", err)
 	}
diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 6b19fc9..3699d07 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/btcsuite/btcd/btcec/v2"
@@ -41,6 +42,14 @@ var (
 	// ErrNoHops is returned when we handle a reply path that does not
 	// have any hops (this makes no sense).
 	ErrNoHops = errors.New("reply path requires hops")
+
+	// ErrTooManyHops is returned when a reply path has more hops than can
+	// be expressed in its encoding.
+	ErrTooManyHops = errors.New("reply path has too many hops")
+
+	// ErrDataTooLong is returned when data has a length that can't be
+	// expressed in its encoding.
+	ErrDataTooLong = errors.New("data too long")
 )
 
 // OnionMessagePayload contains the contents of an onion message payload.
@@ -288,6 +297,11 @@ func encodeReplyPath(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded path: %w", err)
 		}
 
+		if len(p.Hops) > math.MaxUint8 {
+			return fmt.Errorf("%w: %v", ErrTooManyHops,
+				len(p.Hops))
+		}
+
 		hopCount := uint8(len(p.Hops))
 		if hopCount == 0 {
 			return ErrNoHops
@@ -371,6 +385,11 @@ func encodeBlindedHop(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded id: %w", err)
 		}
 
+		if len(b.EncryptedData) > math.MaxUint16 {
+			return fmt.Errorf("encrypted data: %w: %v",
+				ErrDataTooLong, len(b.EncryptedData))
+		}
+
 		dataLen := uint16(len(b.EncryptedData))
 		if err := tlv.EUint16(w, &dataLen, buf); err != nil {
 			return fmt.Errorf("data len: %w", err)
-- 
2.43.0


From 11ab6e4ff51147a9f17e458cb14225f10ad898b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 09/21] fix: do not read past the end of a reply path record

The length of a reply path record was not enforced when it was decoded, so
a malformed record could consume the records that follow it, or leave data
behind that was then parsed as further records.
---
 lnwire/onion_msg_payload.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 3699d07..4fea925 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -50,6 +50,10 @@ var (
 	// ErrDataTooLong is returned when data has a length that can't be
 	// expressed in its encoding.
 	ErrDataTooLong = errors.New("data too long")
+
+	// ErrTrailingData is returned when a reply path record is longer than
+	// the path that it contains.
+	ErrTrailingData = errors.New("trailing data after reply path")
 )
 
 // OnionMessagePayload contains the contents of an onion message payload.
@@ -328,6 +332,11 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 	l uint64) error {
 
 	if p, ok := val.(*ReplyPath); ok && l > 35 {
+		// Limit our reads to the length of the record, so that we don't
+		// run into the records that follow it.
+		limited := &io.LimitedReader{R: r, N: int64(l)}
+		r = limited
+
 		err := tlv.DPubKey(r, &p.FirstNodeID, buf, 33)
 		if err != nil {
 			return fmt.Errorf("decode first id: %w", err)
@@ -356,6 +365,11 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 			p.Hops = append(p.Hops, hop)
 		}
 
+		if limited.N != 0 {
+			return fmt.Errorf("%w: %v bytes", ErrTrailingData,
+				limited.N)
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From 88f53fa195672753976261dd95cb07e48c16c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 10/21] fix: allow invoice requests for offers with only one
 quantity bound

Offers may set only a minimum or only a maximum quantity, but they were
treated as offers without quantities, so a request for an offer that only
sets a minimum could not be created at all.
---
 lnwire/bolt12_invoice_request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index 3240905..dbbae36 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -138,7 +138,7 @@ func NewInvoiceRequest(offer *Offer, amount lnwire.MilliSatoshi,
 		haveMinQuantity = offer.QuantityMin != 0
 		haveMaxQuantity = offer.QuantityMax != 0
 
-		quantitySpecified = haveMinQuantity && haveMaxQuantity
+		quantitySpecified = haveMinQuantity || haveMaxQuantity
 	)
 
 	// Fail if the offer has a quantity range but the request does not set
-- 
2.43.0


From 53a39d9a855580f5f0c9912de1eba74c2107fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 11/21] fix: encode bolt 12 features as a bare bit vector

BOLT 12 features are [...*byte:features], without the additional two byte
length that is used in p2p messages, so offers with features from other
implementations could not be decoded. Also return the bit vector that
is documented in the DecodeOffer rpc.
---
 lnwire/bolt12_shared.go       | 6 ++++--
 rpcserver/impl_decodeoffer.go | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lnwire/bolt12_shared.go b/lnwire/bolt12_shared.go
index 7acaed0..3f12571 100644
--- a/lnwire/bolt12_shared.go
+++ b/lnwire/bolt12_shared.go
@@ -25,7 +25,7 @@ func encodeFetauresRecord(recordType tlv.Type,
 
 	w := new(bytes.Buffer)
 
-	if err := features.Encode(w); err != nil {
+	if err := features.EncodeBase256(w); err != nil {
 		return nil, fmt.Errorf("encode features: %w", err)
 	}
 
@@ -45,7 +45,9 @@ func decodeFeaturesRecord(decodedFeatures []byte,
 
 	// If we decoded a value for our feature vector, decode it.
 	if found {
-		err := rawFeatures.Decode(bytes.NewReader(decodedFeatures))
+		err := rawFeatures.DecodeBase256(
+			bytes.NewReader(decodedFeatures), len(decodedFeatures),
+		)
 		if err != nil {
 			return nil, fmt.Errorf("raw features decode: %w", err)
 		}
diff --git a/rpcserver/impl_decodeoffer.go b/rpcserver/impl_decodeoffer.go
index f6a412c..217f869 100644
--- a/rpcserver/impl_decodeoffer.go
+++ b/rpcserver/impl_decodeoffer.go
@@ -69,7 +69,7 @@ func composeDecodeOfferResponse(offer *lnwire.Offer) (
 	if offer.Features != nil {
 		buf := new(bytes.Buffer)
 
-		if err := offer.Features.Encode(buf); err != nil {
+		if err := offer.Features.EncodeBase256(buf); err != nil {
 			// We really shouldn't run into issues encoding our
 			// feature vector, so we return an internal error if
 			// something goes wrong here.
-- 
2.43.0


From c7bc74a7c5e80b2c4c1a421d744b36d458264fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 12/21] fix: decode truncated integers with a value of zero

A zero tu64 is encoded with no bytes, which we produce (for an offer that
expires at the unix epoch) but did not accept when decoding.
---
 lnwire/tu64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lnwire/tu64.go b/lnwire/tu64.go
index 2e085dc..bf46219 100644
--- a/lnwire/tu64.go
+++ b/lnwire/tu64.go
@@ -23,7 +23,7 @@ func encodeTU64(w io.Writer, val interface{}, buf *[8]byte) error {
 // Note: lnd doesn't have this functionality on its own yet (only in mpp decode)
 // so it is added here.
 func decodeTU64(r io.Reader, val interface{}, buf *[8]byte, l uint64) error {
-	if v, ok := val.(*uint64); ok && 1 <= l && l <= 8 {
+	if v, ok := val.(*uint64); ok && l <= 8 {
 		if err := tlv.DTUint64(r, v, buf, l); err != nil {
 			return err
 		}
-- 
2.43.0


From f7397f4f0d0ee0bc0fd785caa9944088c4100806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 13/21] fix: do not overflow the number of lnd connection
 attempts

With the maximum number of retries (255), adding one attempt overflowed to
zero, so no connection was made and startup dereferenced a nil lnd client.
---
 boltnd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boltnd.go b/boltnd.go
index 6ad6cdd..d25c860 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -71,7 +71,7 @@ func (b *Boltnd) Start() error {
 	// We allow zero retires, so we iterate with retries + 1 to allow at
 	// least one connection attempt for lnd.
 	var connErr error
-	for i := 0; i < int(b.cfg.LNDRetires+1); i++ {
+	for i := 0; i < int(b.cfg.LNDRetires)+1; i++ {
 		log.Infof("Attempt: %v to connect to lnd", i)
 
 		b.lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
-- 
2.43.0


From 8a9c39fed2591c34a164c15a3909b3114a226a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 14/21] fix: release message handler before deregistering a
 failed subscription

If sending to a subscriber's stream failed while its handler was blocked on
delivering the next message, deregistration waited on the messenger's event
loop, which was waiting for the handler.
---
 rpcserver/impl_subscribe_onion_payload.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rpcserver/impl_subscribe_onion_payload.go b/rpcserver/impl_subscribe_onion_payload.go
index 9427e0b..584c0a0 100644
--- a/rpcserver/impl_subscribe_onion_payload.go
+++ b/rpcserver/impl_subscribe_onion_payload.go
@@ -62,6 +62,12 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	messenger onionmsg.OnionMessenger,
 	send func(*offersrpc.SubscribeOnionPayloadResponse) error) error {
 
+	// Cancel our context when we exit for any reason, so that a handler
+	// that is waiting to deliver a message to us is released (otherwise,
+	// the messenger can't process our deregistration).
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
 	// Create an onion message handler which will consume messages from
 	// our incoming channel, dropping messages if our server is shut down
 	// or the client cancels their context.
@@ -96,6 +102,8 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	}
 
 	defer func() {
+		cancel()
+
 		if err := messenger.DeregisterHandler(tlvType); err != nil {
 			log.Errorf("Deregister handler: %v failed: %v",
 				tlvType, err)
-- 
2.43.0


From 82e691484bd3fd4fdb5ffba90a8c9fe6e6af4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 15/21] fix: deliver all final payloads if one handler fails

The failure of one handler (for example, because its subscriber went away)
prevented delivery of the other payloads in the message to their handlers.
---
 onionmsg/messenger.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index bba4af2..12fd620 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -857,7 +857,10 @@ func handleOnionMessage(msg lndclient.CustomMessage,
 		}
 
 		// For each of our final hop payloads, identify a handling
-		// function (if any) and handoff the payload.
+		// function (if any) and handoff the payload. If a handler
+		// fails, we still deliver the other payloads (which belong to
+		// other handlers), and return the first error.
+		var handlerErr error
 		for _, extraData := range payload.FinalHopPayloads {
 			handler, ok := kit.handlers[extraData.TLVType]
 			if !ok {
@@ -873,14 +876,14 @@ func handleOnionMessage(msg lndclient.CustomMessage,
 			if err := handler(
 				payload.ReplyPath, payload.EncryptedData,
 				extraData.Value,
-			); err != nil {
-				return fmt.Errorf("handler for: %v/%x "+
+			); err != nil && handlerErr == nil {
+				handlerErr = fmt.Errorf("handler for: %v/%x "+
 					"failed: %w", extraData.TLVType,
 					extraData.Value, err)
 			}
 		}
 
-		return nil
+		return handlerErr
 
 	// We don't support forwarding at present, so we fail if an onion with
 	// more hops is received.
-- 
2.43.0


From b40df215e123306fc8657dfbda1da2e071d8913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 16/21] fix: stopping a server or messenger while it starts
 left it running

---
 onionmsg/messenger.go | 14 ++++++++++++++
 rpcserver/server.go   | 15 +++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index 12fd620..2dc2f78 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -167,6 +167,10 @@ type Messenger struct {
 	// signal to calling code that it should gracefully exit.
 	requestShutdown func(err error)
 
+	// startStop serializes Start and Stop, so that a messenger that is
+	// stopped while it is starting up leaves nothing running.
+	startStop sync.Mutex
+
 	wg   sync.WaitGroup
 	quit chan struct{}
 }
@@ -197,6 +201,13 @@ func (m *Messenger) Start() error {
 		return errors.New("messenger already started")
 	}
 
+	m.startStop.Lock()
+	defer m.startStop.Unlock()
+
+	if atomic.LoadInt32(&m.stopped) == 1 {
+		return errors.New("messenger already stopped")
+	}
+
 	log.Info("Starting onion messenger")
 	if err := m.router.Start(); err != nil {
 		return fmt.Errorf("could not start router: %w", err)
@@ -224,6 +235,9 @@ func (m *Messenger) Stop() error {
 	log.Info("Stopping onion messenger")
 	defer log.Info("Onion messenger stopped")
 
+	m.startStop.Lock()
+	defer m.startStop.Unlock()
+
 	// Signal our goroutines to quit and wait for them to exit.
 	close(m.quit)
 	m.wg.Wait()
diff --git a/rpcserver/server.go b/rpcserver/server.go
index 574335e..2ddae36 100644
--- a/rpcserver/server.go
+++ b/rpcserver/server.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 	"sync/atomic"
 
 	"github.com/carlakc/boltnd/offersrpc"
@@ -42,6 +43,10 @@ type Server struct {
 	// routeGenerator produces blinded paths to our node.
 	routeGenerator routes.Generator
 
+	// startStop guards the start of our onion messenger, so that a server
+	// that is stopped while it is starting up leaves nothing running.
+	startStop sync.Mutex
+
 	// ready is closed once the server is fully set up and ready to operate.
 	// This is required because we only receive our lnd dependency on
 	// Start().
@@ -87,6 +92,13 @@ func (s *Server) Start(lnd *lndclient.LndServices) error {
 		lnd.Client, nodeKeyECDH.PubKey(),
 	)
 
+	s.startStop.Lock()
+	defer s.startStop.Unlock()
+
+	if atomic.LoadInt32(&s.stopped) == 1 {
+		return errors.New("server already stopped")
+	}
+
 	// Finally setup an onion messenger using the onion router.
 	s.onionMsgr = onionmsg.NewOnionMessenger(
 		lnd.ChainParams, lnd.Client, nodeKeyECDH, s.requestShutdown,
@@ -113,6 +125,9 @@ func (s *Server) Stop() error {
 	// Signal to goroutines to shut down.
 	close(s.quit)
 
+	s.startStop.Lock()
+	defer s.startStop.Unlock()
+
 	// Shut down onion messenger if non-nil.
 	if s.onionMsgr != nil {
 		if err := s.onionMsgr.Stop(); err != nil {
-- 
2.43.0


From 808875570a483e52f342bcc85efcdcff2bf8d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 17/21] fix: calls that wait for the start hung when the server
 was stopped

---
 rpcserver/server.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rpcserver/server.go b/rpcserver/server.go
index 2ddae36..a3d9585 100644
--- a/rpcserver/server.go
+++ b/rpcserver/server.go
@@ -138,13 +138,25 @@ func (s *Server) Stop() error {
 	return nil
 }
 
-// waitForReady blocks until the server is initialized or the context provided
-// is cancelled.
+// waitForReady blocks until the server is initialized or stopped, or the context
+// provided is cancelled.
 func (s *Server) waitForReady(ctx context.Context) error {
+	// If we have been started there is nothing to wait for, even if we have
+	// been stopped since.
 	select {
 	case <-s.ready:
 		return nil
 
+	default:
+	}
+
+	select {
+	case <-s.ready:
+		return nil
+
+	case <-s.quit:
+		return ErrShuttingDown
+
 	case <-ctx.Done():
 		return status.Error(codes.Unavailable, "server not ready")
 	}
-- 
2.43.0


From cc87b9388f59fc2a63270a34f46a36a81b2da169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 18/21] fix: stopping boltnd while it starts left it running
 and connected

---
 boltnd.go | 50 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/boltnd.go b/boltnd.go
index d25c860..276a567 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -22,10 +23,15 @@ type Boltnd struct {
 	started int32 // to be used atomically
 	stopped int32 // to be used atomically
 
+	// lndMtx guards our connection to lnd, so that an instance that is
+	// stopped while it is starting up does not leave a connection open.
+	lndMtx    sync.Mutex
 	lnd       *lndclient.GrpcLndServices
 	rpcServer *rpcserver.Server
 
 	cfg *Config
+
+	quit chan struct{}
 }
 
 // NewBoltnd returns a new external boltnd implementation. Note that the
@@ -48,7 +54,8 @@ func NewBoltnd(opts ...ConfigOption) (*Boltnd, error) {
 	setupLoggers(cfg)
 
 	impl := &Boltnd{
-		cfg: cfg,
+		cfg:  cfg,
+		quit: make(chan struct{}),
 	}
 
 	var err error
@@ -70,17 +77,25 @@ func (b *Boltnd) Start() error {
 
 	// We allow zero retires, so we iterate with retries + 1 to allow at
 	// least one connection attempt for lnd.
-	var connErr error
+	var (
+		lnd     *lndclient.GrpcLndServices
+		connErr error
+	)
 	for i := 0; i < int(b.cfg.LNDRetires)+1; i++ {
 		log.Infof("Attempt: %v to connect to lnd", i)
 
-		b.lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
+		lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
 		if connErr != nil {
 			log.Errorf("error starting lndclient: %w (attempt: %v)",
 				connErr, i)
 
-			time.Sleep(b.cfg.LNDWait)
-			continue
+			select {
+			case <-time.After(b.cfg.LNDWait):
+				continue
+
+			case <-b.quit:
+				return errors.New("boltnd already stopped")
+			}
 		}
 
 		log.Infof("Successfully connected to lnd on attempt: %v", i)
@@ -93,13 +108,32 @@ func (b *Boltnd) Start() error {
 		return fmt.Errorf("could not connect to lnd: %w", connErr)
 	}
 
-	if err := b.rpcServer.Start(&b.lnd.LndServices); err != nil {
+	if err := b.setLnd(lnd); err != nil {
+		return err
+	}
+
+	if err := b.rpcServer.Start(&lnd.LndServices); err != nil {
 		return fmt.Errorf("error starting rpcserver: %v", err)
 	}
 
 	return nil
 }
 
+// setLnd hands over a connection to lnd that will be closed when we stop. If
+// we have already been stopped, it is closed right away.
+func (b *Boltnd) setLnd(lnd *lndclient.GrpcLndServices) error {
+	b.lndMtx.Lock()
+	defer b.lndMtx.Unlock()
+
+	if atomic.LoadInt32(&b.stopped) == 1 {
+		lnd.Close()
+		return errors.New("boltnd already stopped")
+	}
+
+	b.lnd = lnd
+	return nil
+}
+
 // Stop shuts down the boltnd implementation.
 func (b *Boltnd) Stop() error {
 	if !atomic.CompareAndSwapInt32(&b.stopped, 0, 1) {
@@ -107,11 +141,15 @@ func (b *Boltnd) Stop() error {
 	}
 
 	log.Info("Stopping Boltnd")
+	close(b.quit)
 
 	if err := b.rpcServer.Stop(); err != nil {
 		return fmt.Errorf("could not stop rpcserver: %v", err)
 	}
 
+	b.lndMtx.Lock()
+	defer b.lndMtx.Unlock()
+
 	if b.lnd != nil {
 		b.lnd.Close()
 	}
-- 
2.43.0


From 237a99ea446eac7772463aa2b34d9b1c0c9803c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:26 +0000
Subject: [PATCH 19/21] fix: incomplete blinded paths panicked or lost the
 message

---
 lnwire/onion_msg_payload.go | 28 ++++++++++++++++++++++++++++
 routes/blinded.go           | 20 ++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 4fea925..fb31eb2 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -43,6 +43,10 @@ var (
 	// have any hops (this makes no sense).
 	ErrNoHops = errors.New("reply path requires hops")
 
+	// ErrIncompletePath is returned when keys or hops are missing from a
+	// reply path.
+	ErrIncompletePath = errors.New("reply path keys required")
+
 	// ErrTooManyHops is returned when a reply path has more hops than can
 	// be expressed in its encoding.
 	ErrTooManyHops = errors.New("reply path has too many hops")
@@ -74,6 +78,10 @@ func EncodeOnionMessagePayload(o *OnionMessagePayload) ([]byte, error) {
 	var records []tlv.Record
 
 	if o.ReplyPath != nil {
+		if err := o.ReplyPath.Validate(); err != nil {
+			return nil, err
+		}
+
 		records = append(records, o.ReplyPath.record())
 	}
 
@@ -269,6 +277,26 @@ type ReplyPath struct {
 	Hops []*BlindedHop
 }
 
+// Validate returns an error if any of the reply path's keys are missing, or it
+// has no hops.
+func (r *ReplyPath) Validate() error {
+	if r.FirstNodeID == nil || r.BlindingPoint == nil {
+		return ErrIncompletePath
+	}
+
+	if len(r.Hops) == 0 {
+		return ErrNoHops
+	}
+
+	for i, hop := range r.Hops {
+		if hop == nil || hop.BlindedNodeID == nil {
+			return fmt.Errorf("%w: hop %v", ErrIncompletePath, i)
+		}
+	}
+
+	return nil
+}
+
 // record produces a tlv record for a reply path.
 func (r *ReplyPath) record() tlv.Record {
 	return tlv.MakeDynamicRecord(
diff --git a/routes/blinded.go b/routes/blinded.go
index 173eec9..1fb3ac3 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -41,6 +41,10 @@ var (
 	// have sufficient hops.
 	ErrNoPath = errors.New("at least one hop required in route request")
 
+	// ErrHopKeyRequired is returned when a hop in a route request does not
+	// have a key.
+	ErrHopKeyRequired = errors.New("key required for every hop")
+
 	// ErrSessionKeyRequired is returned when a session key is missing from
 	// a routes request.
 	ErrSessionKeyRequired = errors.New("session key required")
@@ -301,6 +305,12 @@ func (r *BlindedRouteRequest) validate() error {
 		return ErrNoPath
 	}
 
+	for i, hop := range r.hops {
+		if hop == nil {
+			return fmt.Errorf("%w: hop %v", ErrHopKeyRequired, i)
+		}
+	}
+
 	if r.sessionKey == nil {
 		return ErrSessionKeyRequired
 	}
@@ -321,6 +331,10 @@ func (r *BlindedRouteRequest) validate() error {
 	lastHop := r.hops[len(r.hops)-1]
 	introNode := r.blindedDestination.FirstNodeID
 
+	if introNode == nil {
+		return fmt.Errorf("%w: not set", ErrNoIntroductionNode)
+	}
+
 	if !bytes.Equal(
 		lastHop.SerializeCompressed(),
 		introNode.SerializeCompressed(),
@@ -394,6 +408,12 @@ func CreateBlindedRoute(req *BlindedRouteRequest) (*BlindedRouteResponse,
 		return nil, fmt.Errorf("invalid request: %w", err)
 	}
 
+	if req.blindedDestination != nil {
+		if err := req.blindedDestination.Validate(); err != nil {
+			return nil, fmt.Errorf("blinded destination: %w", err)
+		}
+	}
+
 	// Save the unblinded pubkey of the first node we need to connect to.
 	// We save this value so that we can tell the caller who to dispatch
 	// the message to.
-- 
2.43.0


From 990a8796636f5387843b8bf0775e6649934c1bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 20/21] fix: sending a message without a destination panicked

---
 onionmsg/messenger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index 2dc2f78..afdb1da 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -397,6 +397,10 @@ func NewSendMessageRequest(destination *btcec.PublicKey, blindedDestination,
 func (m *Messenger) SendMessage(ctx context.Context,
 	req *SendMessageRequest) error {
 
+	if err := req.Validate(); err != nil {
+		return fmt.Errorf("invalid request: %w", err)
+	}
+
 	sessionKey, err := btcec.NewPrivateKey()
 	if err != nil {
 		return fmt.Errorf("could not get session key: %w", err)
-- 
2.43.0


From 47379fe2a49a2da1db03ad1a16c91596aa150f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 21/21] fix: sending to a blinded path without keys panicked

---
 onionmsg/messenger.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index afdb1da..ec5b8b7 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -401,6 +401,12 @@ func (m *Messenger) SendMessage(ctx context.Context,
 		return fmt.Errorf("invalid request: %w", err)
 	}
 
+	if req.BlindedDestination != nil {
+		if err := req.BlindedDestination.Validate(); err != nil {
+			return fmt.Errorf("blinded destination: %w", err)
+		}
+	}
+
 	sessionKey, err := btcec.NewPrivateKey()
 	if err != nil {
 		return fmt.Errorf("could not get session key: %w", err)
-- 
2.43.0

