From 72e9009b3fc16fed429a936da5c599eb850f5751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 01/49] fix: decrypt negative integers whatever was decrypted
 before

The decryption table was extended with negative values only from the largest
integer seen so far, so that -k could not be decrypted any more once a larger
integer had been decrypted without looking for negative values.
---
 lib/crypto.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index 9b85049..7d47b12 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -354,16 +354,14 @@ func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 		if _, err := PointToInt.Put(guess.String(), guessInt); err != nil {
 			return -1, err
 		}
-		if checkNeg {
-			guessIntMinus = -guessInt
-			guessNeg = SuiTe.Point().Mul(SuiTe.Scalar().SetInt64(guessIntMinus), B)
-			if _, err := PointToInt.Put(guessNeg.String(), guessIntMinus); err != nil {
-				return -1, err
-			}
-
-			if guessNeg.Equal(P) {
-				foundNeg = true
-			}
+		// the opposite is always added: the values below currentGreatestInt are not visited again
+		guessIntMinus = -guessInt
+		guessNeg = SuiTe.Point().Neg(guess)
+		if _, err := PointToInt.Put(guessNeg.String(), guessIntMinus); err != nil {
+			return -1, err
+		}
+		if checkNeg && guessNeg.Equal(P) {
+			foundNeg = true
 		}
 		if !foundNeg && guess.Equal(P) {
 			foundPos = true
-- 
2.43.0


From 257e23ab1e7f9e2a37bae1ccec8248ed0f7eb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 02/49] fix: do not change the scalar passed to SplitScalar

---
 lib/crypto.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index 7d47b12..e0cc137 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -115,11 +115,12 @@ func GenKeys(n int) (kyber.Point, []kyber.Scalar, []kyber.Point) {
 // The sum of the returned slice of scalars equals the given `rootScalar`
 func SplitScalar(rootScalar kyber.Scalar, nbrSplits int) []kyber.Scalar {
 	allScalars := make([]kyber.Scalar, nbrSplits)
+	remainder := rootScalar.Clone()
 	for i := range allScalars {
 		allScalars[i] = RandomScalarSlice(1)[0]
-		rootScalar = rootScalar.Sub(rootScalar, allScalars[i])
+		remainder = remainder.Sub(remainder, allScalars[i])
 	}
-	allScalars = append(allScalars, rootScalar)
+	allScalars = append(allScalars, remainder)
 
 	return allScalars
 }
-- 
2.43.0


From 1587bdc8ce852a38dbe0ff9647d4b386db2d825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 03/49] fix: refuse encodings that do not fit their announced
 lengths instead of crashing

---
 lib/crypto.go                                | 24 ++++++++++++--
 lib/key_switch/key_switch_proofs.go          |  3 ++
 lib/shuffle/shuffle_proofs.go                | 11 ++++++
 lib/shuffle/structs.go                       |  6 ++++
 lib/structs.go                               | 35 ++++++++++++++++++++
 lib/tools/tools.go                           |  2 +-
 protocols/collective_aggregation_protocol.go |  7 ++++
 protocols/deterministic_tagging_protocol.go  |  3 ++
 protocols/shuffling+ddt_protocol.go          |  3 ++
 9 files changed, 91 insertions(+), 3 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index e0cc137..7519d6d 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -579,8 +579,11 @@ func (cv *CipherVector) ToBytes() ([]byte, int, error) {
 
 // FromBytes converts a byte array to a CipherVector. Note that you need to create the (empty) object beforehand.
 func (cv *CipherVector) FromBytes(data []byte, length int) error {
-	*cv = make(CipherVector, length)
 	cipherLength := 2 * SuiTe.PointLen()
+	if length < 0 || length > len(data)/cipherLength {
+		return fmt.Errorf("invalid cipher vector: %d bytes for %d elements", len(data), length)
+	}
+	*cv = make(CipherVector, length)
 	for i, pos := 0, 0; i < length*cipherLength; i, pos = i+cipherLength, pos+1 {
 		ct := CipherText{}
 		if err := ct.FromBytes(data[i : i+cipherLength]); err != nil {
@@ -608,9 +611,12 @@ func (c *CipherText) ToBytes() ([]byte, error) {
 
 // FromBytes converts a byte array to a CipherText. Note that you need to create the (empty) object beforehand.
 func (c *CipherText) FromBytes(data []byte) error {
+	pointLength := SuiTe.PointLen()
+	if len(data) < pointLength {
+		return fmt.Errorf("invalid ciphertext: %d bytes", len(data))
+	}
 	(*c).K = SuiTe.Point()
 	(*c).C = SuiTe.Point()
-	pointLength := SuiTe.PointLen()
 	if err := (*c).K.UnmarshalBinary(data[:pointLength]); err != nil {
 		return err
 	}
@@ -715,6 +721,9 @@ func FromBytesToAbstractPoints(target []byte) ([]kyber.Point, error) {
 	var err error
 	aps := make([]kyber.Point, 0)
 	pointLength := SuiTe.PointLen()
+	if len(target)%pointLength != 0 {
+		return nil, fmt.Errorf("invalid list of points: %d bytes", len(target))
+	}
 	for i := 0; i < len(target); i += pointLength {
 		ap := SuiTe.Point()
 		if err = ap.UnmarshalBinary(target[i : i+pointLength]); err != nil {
@@ -768,10 +777,21 @@ func ArrayCipherVectorToBytes(data []CipherVector) ([]byte, []byte, error) {
 
 // FromBytesToArrayCipherVector converts bytes to an array of CipherVector
 func FromBytesToArrayCipherVector(data []byte, cvLengthsByte []byte) ([]CipherVector, error) {
+	if len(cvLengthsByte)%4 != 0 {
+		return nil, fmt.Errorf("invalid list of lengths: %d bytes", len(cvLengthsByte))
+	}
 	cvLengths := libunlynxtools.UnsafeCastBytesToInts(cvLengthsByte)
 	dataConverted := make([]CipherVector, len(cvLengths))
 	elementSize := CipherTextByteSize()
 
+	remaining := len(data) / elementSize
+	for _, length := range cvLengths {
+		if length < 0 || length > remaining {
+			return nil, fmt.Errorf("invalid cipher vectors: %d bytes are not enough", len(data))
+		}
+		remaining -= length
+	}
+
 	var err error
 	mutex := sync.Mutex{}
 	wg := StartParallelize(len(cvLengths))
diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index ff5ae54..64400e8 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -183,6 +183,9 @@ func (pksp *PublishedKSProof) FromBytes(pkspb PublishedKSProofBytes) error {
 	if err != nil {
 		return err
 	}
+	if len(data) != 5 {
+		return fmt.Errorf("invalid key switch proof: %d points", len(data))
+	}
 	KVibKs2RbnegQ := data
 	pksp.K = KVibKs2RbnegQ[0]
 	pksp.ViB = KVibKs2RbnegQ[1]
diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index e0873b0..4ae49e6 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -475,6 +475,11 @@ func (psp *PublishedShufflingProof) ToBytes() (PublishedShufflingProofBytes, err
 
 // FromBytes transforms bytes back to PublishedShufflingProof
 func (psp *PublishedShufflingProof) FromBytes(pspb PublishedShufflingProofBytes) error {
+	if pspb.OriginalList == nil || pspb.OriginalListLength == nil || pspb.ShuffledList == nil ||
+		pspb.ShuffledListLength == nil || pspb.G == nil || pspb.H == nil {
+		return fmt.Errorf("invalid shuffling proof: missing data")
+	}
+
 	var err error
 	psp.OriginalList, err = libunlynx.FromBytesToArrayCipherVector(*pspb.OriginalList, *pspb.OriginalListLength)
 	if err != nil {
@@ -489,12 +494,18 @@ func (psp *PublishedShufflingProof) FromBytes(pspb PublishedShufflingProofBytes)
 	if err != nil {
 		return err
 	}
+	if len(g) != 1 {
+		return fmt.Errorf("invalid shuffling proof: %d points for G", len(g))
+	}
 	psp.G = g[0]
 
 	h, err := libunlynx.FromBytesToAbstractPoints(*pspb.H)
 	if err != nil {
 		return err
 	}
+	if len(h) != 1 {
+		return fmt.Errorf("invalid shuffling proof: %d points for H", len(h))
+	}
 	psp.H = h[0]
 	psp.HashProof = pspb.HashProof
 
diff --git a/lib/shuffle/structs.go b/lib/shuffle/structs.go
index 695222f..c818066 100644
--- a/lib/shuffle/structs.go
+++ b/lib/shuffle/structs.go
@@ -1,6 +1,8 @@
 package libunlynxshuffle
 
 import (
+	"fmt"
+
 	"github.com/ldsec/unlynx/lib"
 	"go.dedis.ch/kyber/v3"
 )
@@ -84,6 +86,10 @@ func DecodeCipherVectorScalar(eCV []CipherVectorScalarBytes) ([]CipherVectorScal
 		}
 
 		for _, el := range v.CipherV {
+			if len(el) != 2 {
+				return slice, fmt.Errorf("invalid ciphertext: %d points", len(el))
+			}
+
 			k := libunlynx.SuiTe.Point()
 			if err := k.UnmarshalBinary(el[0]); err != nil {
 				return slice, err
diff --git a/lib/structs.go b/lib/structs.go
index 0e1a733..50bc06f 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -2,6 +2,7 @@
 package libunlynx
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 
@@ -229,6 +230,24 @@ func UnKey(gk GroupingKey) ([]int64, error) {
 // Marshal
 //______________________________________________________________________________________________________________________
 
+// checkEncodingLengths checks that data can hold the announced numbers of ciphertexts and of other bytes
+func checkEncodingLengths(data []byte, cipherLengths []int, byteLengths ...int) error {
+	remaining := len(data)
+	for _, length := range cipherLengths {
+		if length < 0 || length > remaining/CipherTextByteSize() {
+			return fmt.Errorf("invalid encoding: %d bytes are not enough", len(data))
+		}
+		remaining -= length * CipherTextByteSize()
+	}
+	for _, length := range byteLengths {
+		if length < 0 || length > remaining {
+			return fmt.Errorf("invalid encoding: %d bytes are not enough", len(data))
+		}
+		remaining -= length
+	}
+	return nil
+}
+
 // ToBytes converts a Filtered to a byte array
 func (cv *FilteredResponse) ToBytes() ([]byte, int, int, error) {
 	b := make([]byte, 0)
@@ -255,6 +274,10 @@ func (cv *FilteredResponse) ToBytes() ([]byte, int, int, error) {
 
 // FromBytes converts a byte array to a FilteredResponse. Note that you need to create the (empty) object beforehand.
 func (cv *FilteredResponse) FromBytes(data []byte, aabLength, pgaebLength int) error {
+	if err := checkEncodingLengths(data, []int{aabLength, pgaebLength}); err != nil {
+		return err
+	}
+
 	(*cv).AggregatingAttributes = make(CipherVector, aabLength)
 	(*cv).GroupByEnc = make(CipherVector, pgaebLength)
 
@@ -293,6 +316,10 @@ func (crd *FilteredResponseDet) ToBytes() ([]byte, int, int, int, error) {
 
 // FromBytes converts a byte array to a FilteredResponseDet. Note that you need to create the (empty) object beforehand.
 func (crd *FilteredResponseDet) FromBytes(data []byte, gacbLength, aabLength, dtbgbLength int) error {
+	if err := checkEncodingLengths(data, []int{gacbLength, aabLength}, dtbgbLength); err != nil {
+		return err
+	}
+
 	(*crd).Fr.AggregatingAttributes = make(CipherVector, aabLength)
 	(*crd).Fr.GroupByEnc = make(CipherVector, gacbLength)
 
@@ -348,6 +375,10 @@ func (cv *ProcessResponse) ToBytes() ([]byte, int, int, int, error) {
 
 // FromBytes converts a byte array to a ProcessResponse. Note that you need to create the (empty) object beforehand.
 func (cv *ProcessResponse) FromBytes(data []byte, gacbLength, aabLength, pgaebLength int) error {
+	if err := checkEncodingLengths(data, []int{gacbLength, aabLength, pgaebLength}); err != nil {
+		return err
+	}
+
 	(*cv).AggregatingAttributes = make(CipherVector, aabLength)
 	(*cv).WhereEnc = make(CipherVector, pgaebLength)
 	(*cv).GroupByEnc = make(CipherVector, gacbLength)
@@ -399,6 +430,10 @@ func (crd *ProcessResponseDet) ToBytes() ([]byte, int, int, int, int, int, error
 
 // FromBytes converts a byte array to a ProcessResponseDet. Note that you need to create the (empty) object beforehand.
 func (crd *ProcessResponseDet) FromBytes(data []byte, gacbLength, aabLength, pgaebLength, dtbgbLength, dtbwLength int) error {
+	if err := checkEncodingLengths(data, []int{gacbLength, aabLength, pgaebLength}, dtbgbLength, dtbwLength); err != nil {
+		return err
+	}
+
 	(*crd).PR.AggregatingAttributes = make(CipherVector, aabLength)
 	(*crd).PR.WhereEnc = make(CipherVector, pgaebLength)
 	(*crd).PR.GroupByEnc = make(CipherVector, gacbLength)
diff --git a/lib/tools/tools.go b/lib/tools/tools.go
index 0aa8f29..7eff031 100644
--- a/lib/tools/tools.go
+++ b/lib/tools/tools.go
@@ -45,7 +45,7 @@ func UnsafeCastIntsToBytes(ints []int) []byte {
 // UnsafeCastBytesToInts casts a slice of bytes to a slice of ints
 func UnsafeCastBytesToInts(bytes []byte) []int {
 	intsFinal := make([]int, 0)
-	for i := 0; i < len(bytes); i += 4 {
+	for i := 0; i+4 <= len(bytes); i += 4 {
 		x := binary.BigEndian.Uint32(bytes[i : i+4])
 		intsFinal = append(intsFinal, int(x))
 	}
diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 12e184d..3a33178 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -387,9 +387,16 @@ func (sm *ChildAggregatedDataMessage) ToBytes() ([]byte, int, int, int, error) {
 // FromBytes converts a byte array to a ChildAggregatedDataMessage. Note that you need to create the (empty) object beforehand.
 func (sm *ChildAggregatedDataMessage) FromBytes(data []byte, gacbLength, aabLength, dtbLength int) error {
 	cipherTextSize := libunlynx.CipherTextByteSize()
+	if gacbLength < 0 || gacbLength > len(data)/cipherTextSize || aabLength < 0 || aabLength > len(data)/cipherTextSize ||
+		dtbLength < 0 || dtbLength > len(data) {
+		return fmt.Errorf("invalid aggregated data: %d bytes are not enough", len(data))
+	}
 	elementLength := gacbLength*cipherTextSize + aabLength*cipherTextSize + dtbLength
 
 	if elementLength != 0 && len(data) > 0 {
+		if len(data)%elementLength != 0 {
+			return fmt.Errorf("invalid aggregated data: %d bytes for elements of %d bytes", len(data), elementLength)
+		}
 		var nbrChildData int
 		nbrChildData = len(data) / elementLength
 
diff --git a/protocols/deterministic_tagging_protocol.go b/protocols/deterministic_tagging_protocol.go
index a457f8c..d0ec498 100644
--- a/protocols/deterministic_tagging_protocol.go
+++ b/protocols/deterministic_tagging_protocol.go
@@ -383,6 +383,9 @@ func (dtm *DeterministicTaggingMessage) ToBytes() ([]byte, error) {
 // FromBytes converts a byte array to a DeterministicTaggingMessage. Note that you need to create the (empty) object beforehand.
 func (dtm *DeterministicTaggingMessage) FromBytes(data []byte) error {
 	elementSize := libunlynx.CipherTextByteSize()
+	if len(data)%elementSize != 0 {
+		return fmt.Errorf("invalid deterministic tagging message: %d bytes", len(data))
+	}
 	(*dtm).Data = make([]libunlynx.CipherText, len(data)/elementSize)
 
 	// iter over each value in the flatten data byte array
diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index 369d0ac..1999dea 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -335,6 +335,9 @@ func (spddtm *ShufflingPlusDDTMessage) FromBytes(data []byte, shuffKey []byte, c
 	if err != nil {
 		return err
 	}
+	if len(dataP) != 1 {
+		return fmt.Errorf("invalid shuffling key: %d points", len(dataP))
+	}
 	(*spddtm).ShuffKey = dataP[0]
 	return nil
 }
-- 
2.43.0


From 4a261b2712c8402319d7f00b4bc6014f10f9d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 04/49] fix: decode the filter tags of a tagged response from
 their own bytes

---
 lib/structs.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/structs.go b/lib/structs.go
index 50bc06f..f87927e 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -447,12 +447,14 @@ func (crd *ProcessResponseDet) FromBytes(data []byte, gacbLength, aabLength, pga
 	aab := data[gacbByteLength : gacbByteLength+aabByteLength]
 	pgaeb := data[gacbByteLength+aabByteLength : gacbByteLength+aabByteLength+pgaebByteLength]
 	dtbgb := data[gacbByteLength+aabByteLength+pgaebByteLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength]
-	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbgbLength+dtbwLength]
+	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbwLength]
 
 	(*crd).DetTagGroupBy = GroupingKey(string(dtbgb))
 	(*crd).DetTagWhere = make([]GroupingKey, 0)
-	for _, key := range strings.Split(string(dtbw), SEPARATOR) {
-		(*crd).DetTagWhere = append((*crd).DetTagWhere, GroupingKey(key))
+	if dtbwLength > 0 {
+		for _, key := range strings.Split(string(dtbw), SEPARATOR) {
+			(*crd).DetTagWhere = append((*crd).DetTagWhere, GroupingKey(key))
+		}
 	}
 	err := (*crd).PR.AggregatingAttributes.FromBytes(aab, aabLength)
 	if err != nil {
-- 
2.43.0


From bb9fe0e9a5e69d0e320defa4956d700e4404d608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 05/49] fix: keep every digit and the sign when reading a group
 key back

---
 lib/structs.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/structs.go b/lib/structs.go
index f87927e..b16799d 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -209,19 +209,17 @@ func Key(ga []int64) GroupingKey {
 // UnKey permits to go from a tag non-encrypted grouping attributes to grouping attributes
 func UnKey(gk GroupingKey) ([]int64, error) {
 	tab := make([]int64, 0)
-	count := 0
-	nbrString := make([]string, 1)
+	nbrString := ""
 	for _, a := range gk {
 		if a != ',' {
-			nbrString[0] = string(a)
+			nbrString += string(a)
 		} else {
-			key, err := strconv.Atoi(strings.Join(nbrString, ""))
+			key, err := strconv.ParseInt(nbrString, 10, 64)
 			if err != nil {
 				return nil, err
 			}
-			tab = append(tab, int64(key))
-			nbrString = make([]string, 1)
-			count++
+			tab = append(tab, key)
+			nbrString = ""
 		}
 	}
 	return tab, nil
-- 
2.43.0


From 2cca427ca99df230ec69b8319dec1d9543897208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 06/49] fix: prove every element of a tag addition list, not
 the first of its chunk

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 09bea34..12f414d 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -209,10 +209,10 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 	var wg sync.WaitGroup
 	for i := 0; i < nbrProofsToCreate; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
-		go func(i int, c1 kyber.Point, s kyber.Scalar, c2 kyber.Point, r kyber.Point) {
+		go func(i int) {
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < nbrProofsToCreate); j++ {
-				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1, s, c2, r)
+				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1List[i+j], sList[i+j], c2List[i+j], rList[i+j])
 				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
@@ -221,7 +221,7 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 				}
 				listProofs.List[i+j] = proofAux
 			}
-		}(i, c1List[i], sList[i], c2List[i], rList[i])
+		}(i)
 
 	}
 	wg.Wait()
-- 
2.43.0


From de7c2c2931d84e19188c8ced4531a59fad48cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 07/49] fix: compare the points of a tag addition proof by
 value

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 12f414d..4066f81 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -3,7 +3,6 @@ package libunlynxdetertag
 import (
 	"fmt"
 	"math"
-	"reflect"
 	"sync"
 
 	"github.com/ldsec/unlynx/lib"
@@ -248,7 +247,7 @@ func DeterministicTagAdditionProofVerification(psap PublishedDDTAdditionProof) b
 	partProof = true
 
 	cv := libunlynx.SuiTe.Point().Add(psap.C1, psap.C2)
-	return partProof && reflect.DeepEqual(cv, psap.R)
+	return partProof && cv.Equal(psap.R)
 }
 
 // DeterministicTagAdditionListProofVerification verifies multiple deterministic tag addition proofs
-- 
2.43.0


From b1e45f14ffe223fbd4f86ffac478787e9e656d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 08/49] fix: bind every component of a deterministic tag
 creation proof

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 4066f81..42545f2 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -101,7 +101,7 @@ func DeterministicTagCrListProofCreation(vBef, vAft libunlynx.CipherVector, K ky
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(vBef)); j++ {
 				proofAux, tmpErr := DeterministicTagCrProofCreation(vBef[i+j], vAft[i+j], K, k, s)
-				if err != nil {
+				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
 					mutex.Unlock()
@@ -133,6 +133,11 @@ func DeterministicTagCrProofVerification(prf PublishedDDTCreationProof, K, SB ky
 	ci2 := prf.CTaft.C
 	ciminus12 := prf.CTbef.C
 
+	// the point used to remove the key must be the one obtained with the secret: -(s*ciminus11) = -ci1
+	if !prf.Ciminus11Si.Equal(libunlynx.SuiTe.Point().Neg(ci1)) {
+		return false
+	}
+
 	pval := map[string]kyber.Point{"B": B, "K": K, "ciminus11Si": prf.Ciminus11Si, "ciminus12": ciminus12, "ciminus11": ciminus11, "ci2": ci2, "ci1": ci1, "SB": SB}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
 	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, prf.Proof); err != nil {
-- 
2.43.0


From 9f0f312a366c10c61194e505233f5b341325b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 09/49] fix: verify only the requested fraction of add/rm
 proofs

---
 lib/add_rm/add_rm_proofs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 817cafd..681b766 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -133,11 +133,11 @@ func AddRmListProofVerification(parp PublishedAddRmListProof, percent float64) b
 	results := make([]bool, nbrProofsToVerify)
 
 	var wg sync.WaitGroup
-	for i := 0; i < len(parp.List); i += libunlynx.VPARALLELIZE {
+	for i := 0; i < nbrProofsToVerify; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
 		go func(i int, krm kyber.Point, toadd bool) {
 			defer wg.Done()
-			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < len(parp.List); j++ {
+			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < nbrProofsToVerify; j++ {
 				results[i+j] = AddRmProofVerification(parp.List[i+j], krm, toadd)
 			}
 		}(i, parp.Krm, parp.ToAdd)
-- 
2.43.0


From 81d7306b7c3c3a48d1d9192f0582165112ffb110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 10/49] fix: refuse add/rm proofs whose ciphertext randomness
 was changed

---
 lib/add_rm/add_rm_proofs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 681b766..2f38627 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -108,6 +108,11 @@ func AddRmListProofCreation(vBef, vAft libunlynx.CipherVector, K kyber.Point, k
 
 // AddRmProofVerification verifies an add/rm proof
 func AddRmProofVerification(cp PublishedAddRmProof, K kyber.Point, toAdd bool) bool {
+	// adding or removing a server does not change the randomness of the ciphertext
+	if !cp.CtAft.K.Equal(cp.CtBef.K) || !cp.RB.Equal(cp.CtBef.K) {
+		return false
+	}
+
 	predicate := createPredicateAddRm()
 	B := libunlynx.SuiTe.Point().Base()
 	c2 := libunlynx.SuiTe.Point()
-- 
2.43.0


From 9c75b8e978cfba48a926f856c5214dbc6b2588de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 11/49] fix: do not wait forever when a key switch proof cannot
 be created

---
 lib/key_switch/key_switch_proofs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index 64400e8..b8d717b 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -82,10 +82,10 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 	for i := 0; i < len(viBs); i += libunlynx.VPARALLELIZE {
 		wg1.Add(1)
 		go func(i int) {
+			defer wg1.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(viBs)); j++ {
 				viBs[i+j] = libunlynx.SuiTe.Point().Mul(vis[i+j], libunlynx.SuiTe.Point().Base())
 			}
-			defer wg1.Done()
 		}(i)
 
 	}
@@ -100,6 +100,7 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 	for i := 0; i < len(viBs); i += libunlynx.VPARALLELIZE {
 		wg2.Add(1)
 		go func(i int, Q kyber.Point, k kyber.Scalar) {
+			defer wg2.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(viBs)); j++ {
 				proofAux, tmpErr := KeySwitchProofCreation(K, Q, k, viBs[i+j], ks2s[i+j], rBNegs[i+j], vis[i+j])
 				if tmpErr != nil {
@@ -110,7 +111,6 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 				}
 				plop.List[i+j] = proofAux
 			}
-			defer wg2.Done()
 		}(i, Q, k)
 
 	}
-- 
2.43.0


From ad4d44f18e1fd2da9062b93e2d27ecff7c1449ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 12/49] fix: accumulate an empty vector to the neutral
 ciphertext

---
 lib/crypto.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/crypto.go b/lib/crypto.go
index 7519d6d..bcc927c 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -459,6 +459,10 @@ func (cv *CipherVector) Equal(cv2 *CipherVector) bool {
 
 // Acum adds all elements in a ciphervector
 func (cv *CipherVector) Acum() CipherText {
+	if len(*cv) == 0 {
+		return *NewCipherText()
+	}
+
 	acum := (*cv)[0]
 	for i := 1; i < len(*cv); i++ {
 		acum.Add(acum, (*cv)[i])
-- 
2.43.0


From d68a767be8bf6860721fecb64d68c475b052b54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 13/49] fix: refuse shuffle proofs with inconsistent lists
 instead of crashing

---
 lib/shuffle/shuffle_proofs.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 4ae49e6..051f5e2 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -43,8 +43,25 @@ type PublishedShufflingListProof struct {
 // SHUFFLE proofs
 //______________________________________________________________________________________________________________________
 
+// checkShuffleLengths checks that both lists have the same number of rows (at least two) and the same row size
+func checkShuffleLengths(originalList, shuffledList []libunlynx.CipherVector) error {
+	if len(originalList) < 2 || len(originalList) != len(shuffledList) {
+		return fmt.Errorf("cannot prove a shuffle of %d rows into %d rows", len(originalList), len(shuffledList))
+	}
+	for i := range originalList {
+		if len(originalList[i]) != len(originalList[0]) || len(shuffledList[i]) != len(originalList[0]) {
+			return fmt.Errorf("the rows of the shuffle do not have the same size")
+		}
+	}
+	return nil
+}
+
 // ShuffleProofCreation creates a shuffle proof
 func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g, h kyber.Point, beta [][]kyber.Scalar, pi []int) (PublishedShufflingProof, error) {
+	if err := checkShuffleLengths(originalList, shuffledList); err != nil {
+		return PublishedShufflingProof{}, err
+	}
+
 	e, err := CipherVectorComputeE(h, originalList[0])
 	if err != nil {
 		return PublishedShufflingProof{}, err
@@ -137,6 +154,11 @@ func ShuffleListProofCreation(originalList, shuffledList [][]libunlynx.CipherVec
 
 // ShuffleProofVerification verifies a shuffle proof
 func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) bool {
+	if err := checkShuffleLengths(psp.OriginalList, psp.ShuffledList); err != nil {
+		log.Error(err)
+		return false
+	}
+
 	e, err := CipherVectorComputeE(seed, psp.OriginalList[0])
 	if err != nil {
 		log.Error(err)
-- 
2.43.0


From 7293324cd063bd27a2175435c8caba7d457a3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 14/49] fix: make the challenges of a shuffle proof depend on
 all its inputs and outputs

---
 lib/shuffle/shuffle_proofs.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 051f5e2..e9846e3 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -62,7 +62,7 @@ func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g
 		return PublishedShufflingProof{}, err
 	}
 
-	e, err := CipherVectorComputeE(h, originalList[0])
+	e, err := computeChallenges(h, originalList, shuffledList)
 	if err != nil {
 		return PublishedShufflingProof{}, err
 	}
@@ -159,7 +159,7 @@ func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) boo
 		return false
 	}
 
-	e, err := CipherVectorComputeE(seed, psp.OriginalList[0])
+	e, err := computeChallenges(seed, psp.OriginalList, psp.ShuffledList)
 	if err != nil {
 		log.Error(err)
 		log.Lvl1("-----------verify failed (with XhaBar)")
@@ -239,6 +239,32 @@ func ShuffleListProofVerification(pslp PublishedShufflingListProof, seed kyber.P
 	return finalResult
 }
 
+// computeChallenges computes the factors used to compress the rows. They depend on all input and output ciphertexts,
+// otherwise a shuffler could choose outputs that are different but compressed to the same values.
+func computeChallenges(h kyber.Point, originalList, shuffledList []libunlynx.CipherVector) ([]kyber.Scalar, error) {
+	seed, err := h.MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+
+	xof := libunlynx.SuiTe.XOF(seed)
+	for _, list := range [][]libunlynx.CipherVector{originalList, shuffledList} {
+		data, _, err := libunlynx.ArrayCipherVectorToBytes(list)
+		if err != nil {
+			return nil, err
+		}
+		if _, err := xof.Write(data); err != nil {
+			return nil, err
+		}
+	}
+
+	e := make([]kyber.Scalar, len(originalList[0]))
+	for i := range e {
+		e[i] = libunlynx.SuiTe.Scalar().Pick(xof)
+	}
+	return e, nil
+}
+
 // CipherVectorComputeE computes all the e's for a ciphervector based on a seed h
 func CipherVectorComputeE(h kyber.Point, cv libunlynx.CipherVector) ([]kyber.Scalar, error) {
 	var err error
-- 
2.43.0


From b156cec099a038bdbcc48055ea9ca9cdaa5c7a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 15/49] fix: wait for the root's own contribution before
 finishing a key switch

---
 protocols/key_switching_protocol.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/protocols/key_switching_protocol.go b/protocols/key_switching_protocol.go
index a774605..255c57c 100644
--- a/protocols/key_switching_protocol.go
+++ b/protocols/key_switching_protocol.go
@@ -102,6 +102,7 @@ type KeySwitchingProtocol struct {
 
 	// Protocol root data
 	NodeContribution *libunlynx.CipherVector
+	rootContributed  chan struct{} // closed once the root's own contribution is set
 
 	// Protocol state data
 	TargetOfSwitch  *libunlynx.CipherVector
@@ -121,6 +122,7 @@ func NewKeySwitchingProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstance, e
 	pap := &KeySwitchingProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan libunlynx.CipherVector),
+		rootContributed:  make(chan struct{}),
 	}
 
 	err := pap.RegisterChannel(&pap.DownChannel)
@@ -171,6 +173,7 @@ func (p *KeySwitchingProtocol) Start() error {
 		p.ProofFunc(p.Public(), *p.TargetPublicKey, p.Private(), ks2s, rBNegs, vis)
 	}
 	p.NodeContribution = &switchedCiphers
+	close(p.rootContributed)
 
 	data, err := libunlynx.AbstractPointsToBytes(initialTab)
 	if err != nil {
@@ -202,6 +205,12 @@ func (p *KeySwitchingProtocol) Dispatch() error {
 			p.ProofFunc(p.Public(), targetPublicKey, p.Private(), ks2s, rBNegs, vis)
 		}
 		p.NodeContribution = &switchedCiphers
+	} else {
+		select {
+		case <-p.rootContributed:
+		case <-time.After(libunlynx.TIMEOUT):
+			return fmt.Errorf(p.ServerIdentity().String() + " didn't compute its own contribution on time")
+		}
 	}
 
 	// 2. Ascending key switching phase
-- 
2.43.0


From 0925edf13a66cb260d62e10329c2b43fd777452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 16/49] fix: ignore precomputed shuffling material made for
 another key or size, shuffle empty lists

---
 lib/shuffle/shuffle.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/shuffle/shuffle.go b/lib/shuffle/shuffle.go
index 2044f7a..7d052a0 100644
--- a/lib/shuffle/shuffle.go
+++ b/lib/shuffle/shuffle.go
@@ -15,12 +15,17 @@ import (
 
 // ShuffleSequence applies shuffling to a ciphervector
 func ShuffleSequence(inputList []libunlynx.CipherVector, g, h kyber.Point, precomputed []CipherVectorScalar) ([]libunlynx.CipherVector, []int, [][]kyber.Scalar) {
+	if len(inputList) == 0 {
+		return []libunlynx.CipherVector{}, []int{}, [][]kyber.Scalar{}
+	}
+
 	maxUint := ^uint(0)
 	maxInt := int(maxUint >> 1)
 
 	// number of elgamal pairs
 	NQ := len(inputList[0])
 	k := len(inputList) // number of clients
+	precomputed = usablePrecomputed(precomputed, NQ, g, h)
 
 	rand := libunlynx.SuiTe.RandomStream()
 	// Pick a fresh (or precomputed) ElGamal blinding factor for each pair
@@ -56,6 +61,20 @@ func ShuffleSequence(inputList []libunlynx.CipherVector, g, h kyber.Point, preco
 	return outputList, pi, beta
 }
 
+// usablePrecomputed keeps the precomputed lines that are long enough and that were prepared for the bases g and h
+func usablePrecomputed(precomputed []CipherVectorScalar, lineSize int, g, h kyber.Point) []CipherVectorScalar {
+	var usable []CipherVectorScalar
+	for _, line := range precomputed {
+		if lineSize == 0 || len(line.S) < lineSize || len(line.CipherV) < lineSize {
+			continue
+		}
+		if libunlynx.SuiTe.Point().Mul(line.S[0], g).Equal(line.CipherV[0].K) && libunlynx.SuiTe.Point().Mul(line.S[0], h).Equal(line.CipherV[0].C) {
+			usable = append(usable, line)
+		}
+	}
+	return usable
+}
+
 // shuffle applies shuffling and rerandomization
 func shuffle(pi []int, i int, inputList, outputList []libunlynx.CipherVector, NQ int, beta [][]kyber.Scalar, precomputedPoints []libunlynx.CipherVector, g, h kyber.Point) {
 	index := pi[i]
-- 
2.43.0


From 49688c766f7d86a95dd2dd1597a5437979627d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 17/49] fix: pair the lengths and the data of a collective
 aggregation by sender

---
 protocols/collective_aggregation_protocol.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 3a33178..1e311ed 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -215,14 +215,15 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 		for _, v := range <-p.LengthNodeChannel {
 			length = append(length, v)
 		}
-		datas := make([]childAggregatedDataBytesStruct, 0)
+		// the messages of the children can arrive in any order
+		datas := make(map[onet.TreeNodeID]childAggregatedDataBytesStruct)
 		for _, v := range <-p.ChildDataChannel {
-			datas = append(datas, v)
+			datas[v.TreeNode.ID] = v
 		}
 
-		for i, v := range length {
+		for _, v := range length {
 			childrenContribution := ChildAggregatedDataMessage{}
-			err := childrenContribution.FromBytes(datas[i].Data, v.GacbLength, v.AabLength, v.DtbLength)
+			err := childrenContribution.FromBytes(datas[v.TreeNode.ID].Data, v.GacbLength, v.AabLength, v.DtbLength)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 28c9cf162a62a9cb3d693c312ca37a83c7fd9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 18/49] fix: aggregate and prove groups whose vectors have
 different lengths

---
 protocols/collective_aggregation_protocol.go | 43 +++++++++++++++-----
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 1e311ed..8377c60 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -233,22 +233,25 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 			for _, aggr := range childrenContribution.ChildData {
 				localAggr, ok := (*p.GroupedData)[aggr.DetTagGroupBy]
 
+				if ok {
+					encZeros := p.encryptedZeros(len(localAggr.AggregatingAttributes) - len(aggr.Fr.AggregatingAttributes))
+					if len(localAggr.AggregatingAttributes) > len(aggr.Fr.AggregatingAttributes) {
+						aggr.Fr.AggregatingAttributes = append(aggr.Fr.AggregatingAttributes, encZeros...)
+					} else {
+						localAggr.AggregatingAttributes = append(localAggr.AggregatingAttributes, encZeros...)
+						if p.Proofs {
+							for _, zero := range encZeros {
+								cvMap[aggr.DetTagGroupBy] = append(cvMap[aggr.DetTagGroupBy], libunlynx.CipherVector{zero})
+							}
+						}
+					}
+				}
+
 				if p.Proofs {
 					aggr.FormatAggregationProofs(cvMap)
 				}
 
 				if ok {
-					if len(localAggr.AggregatingAttributes) != len(aggr.Fr.AggregatingAttributes) {
-						encZeros := make(libunlynx.CipherVector, int(math.Abs(float64(len(localAggr.AggregatingAttributes)-len(aggr.Fr.AggregatingAttributes)))))
-						for e := range encZeros {
-							encZeros[e] = *libunlynx.EncryptInt(p.Roster().Aggregate, 0)
-						}
-						if len(localAggr.AggregatingAttributes) > len(aggr.Fr.AggregatingAttributes) {
-							aggr.Fr.AggregatingAttributes = append(aggr.Fr.AggregatingAttributes, encZeros...)
-						} else {
-							localAggr.AggregatingAttributes = append(localAggr.AggregatingAttributes, encZeros...)
-						}
-					}
 					cv := libunlynx.NewCipherVector(len(localAggr.AggregatingAttributes))
 					cv.Add(localAggr.AggregatingAttributes, aggr.Fr.AggregatingAttributes)
 
@@ -269,9 +272,18 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 	libunlynx.EndTimer(roundTotComput)
 
 	if !p.IsRoot() {
+		// all the vectors of a message have the same length
+		maxLength := 0
+		for _, v := range *p.GroupedData {
+			if len(v.AggregatingAttributes) > maxLength {
+				maxLength = len(v.AggregatingAttributes)
+			}
+		}
+
 		detAggrResponses := make([]libunlynx.FilteredResponseDet, len(*p.GroupedData))
 		count := 0
 		for i, v := range *p.GroupedData {
+			v.AggregatingAttributes = append(v.AggregatingAttributes, p.encryptedZeros(maxLength-len(v.AggregatingAttributes))...)
 			detAggrResponses[count].DetTagGroupBy = i
 			detAggrResponses[count].Fr = v
 			count++
@@ -304,6 +316,15 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 	return p.GroupedData, nil
 }
 
+// encryptedZeros creates a vector of |n| encryptions of 0 under the collective key
+func (p *CollectiveAggregationProtocol) encryptedZeros(n int) libunlynx.CipherVector {
+	encZeros := make(libunlynx.CipherVector, int(math.Abs(float64(n))))
+	for e := range encZeros {
+		encZeros[e] = *libunlynx.EncryptInt(p.Roster().Aggregate, 0)
+	}
+	return encZeros
+}
+
 // Setup and return the data needed in the aggregation to a usable format
 func (p *CollectiveAggregationProtocol) checkData() error {
 	// If no data is passed to the collection protocol
-- 
2.43.0


From d30b0cac8a1a4c5ab3d08a907246114a8113bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 19/49] fix: store pulls must not share memory with later
 pushes

---
 lib/store/store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 98bdc10..553d80b 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -113,7 +113,7 @@ func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
 	for _, v := range s.DpResponsesAggr {
 		result = append(result, v)
 	}
-	s.DpResponses = s.DpResponses[:0] //clear table
+	s.DpResponses = nil //clear table
 	return result
 }
 
@@ -125,7 +125,7 @@ func (s *Store) PushShuffledProcessResponses(newShuffledProcessResponses []libun
 // PullShuffledProcessResponses gets shuffled process responses
 func (s *Store) PullShuffledProcessResponses() []libunlynx.ProcessResponse {
 	result := s.ShuffledProcessResponses
-	s.ShuffledProcessResponses = s.ShuffledProcessResponses[:0] //clear table
+	s.ShuffledProcessResponses = nil //clear table
 	return result
 }
 
@@ -291,7 +291,7 @@ func (s *Store) PushQuerierKeyEncryptedResponses(keySwitchedResponse []libunlynx
 // PullDeliverableResults gets the results.
 func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
 	results := s.DeliverableResults
-	s.DeliverableResults = s.DeliverableResults[:0]
+	s.DeliverableResults = nil
 
 	if diffPri {
 		for _, v := range results {
-- 
2.43.0


From 20279ed3060bbc5af776a8dc1088b8272cfd0519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:47 +0000
Subject: [PATCH 20/49] fix: deliver aggregated data provider responses once
 and report them as pending

---
 lib/store/store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 553d80b..f4d7e11 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -104,7 +104,7 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 
 // HasNextDpResponse permits to verify if there are new DP responses to be processed.
 func (s *Store) HasNextDpResponse() bool {
-	return len(s.DpResponses) > 0
+	return len(s.DpResponses) > 0 || len(s.DpResponsesAggr) > 0
 }
 
 // PullDpResponses permits to get the received DP responses
@@ -114,6 +114,7 @@ func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
 		result = append(result, v)
 	}
 	s.DpResponses = nil //clear table
+	s.DpResponsesAggr = make(map[GroupingKeyTuple]libunlynx.ProcessResponse)
 	return result
 }
 
-- 
2.43.0


From fbd49106b91c99b6dac5204c2bcc99260e577cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:47 +0000
Subject: [PATCH 21/49] fix: add the requested noise to the pulled results

---
 lib/store/store.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index f4d7e11..d295e19 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -274,11 +274,7 @@ func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise lib
 	s.GroupedDeterministicFilteredResponses = make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
 
 	if diffPri {
-		for _, v := range aggregatedResults {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
-			}
-		}
+		aggregatedResults = addNoise(aggregatedResults, noise)
 	}
 
 	return aggregatedResults
@@ -295,16 +291,25 @@ func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText)
 	s.DeliverableResults = nil
 
 	if diffPri {
-		for _, v := range results {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
-			}
-		}
+		results = addNoise(results, noise)
 	}
 
 	return results
 }
 
+// addNoise returns the responses with the noise added to each of their aggregating attributes
+func addNoise(responses []libunlynx.FilteredResponse, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
+	result := make([]libunlynx.FilteredResponse, len(responses))
+	for i, v := range responses {
+		result[i].GroupByEnc = v.GroupByEnc
+		result[i].AggregatingAttributes = *libunlynx.NewCipherVector(len(v.AggregatingAttributes))
+		for j, aggr := range v.AggregatingAttributes {
+			result[i].AggregatingAttributes[j].Add(aggr, noise)
+		}
+	}
+	return result
+}
+
 // DisplayResults shows results and is useful for debugging.
 func (s *Store) DisplayResults() {
 	for _, v := range s.DeliverableResults {
-- 
2.43.0


From b4609cbbc5e6d5c2973f29b23f6d0ee6639d74ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:47 +0000
Subject: [PATCH 22/49] fix: guard the store against concurrent data providers

---
 lib/store/store.go | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index d295e19..a29c63f 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -80,6 +80,9 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 	clearWhr, newResp.WhereEnc = proccessParameters(whereStrings, cr.WhereClear, cr.WhereEnc, noEnc)
 	_, newResp.AggregatingAttributes = proccessParameters(sum, cr.AggregatingAttributesClear, cr.AggregatingAttributesEnc, false)
 
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	if !noEnc {
 		s.DpResponses = append(s.DpResponses, newResp)
 	} else {
@@ -104,11 +107,17 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 
 // HasNextDpResponse permits to verify if there are new DP responses to be processed.
 func (s *Store) HasNextDpResponse() bool {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	return len(s.DpResponses) > 0 || len(s.DpResponsesAggr) > 0
 }
 
 // PullDpResponses permits to get the received DP responses
 func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	result := s.DpResponses
 	for _, v := range s.DpResponsesAggr {
 		result = append(result, v)
@@ -120,11 +129,17 @@ func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
 
 // PushShuffledProcessResponses stores shuffled responses
 func (s *Store) PushShuffledProcessResponses(newShuffledProcessResponses []libunlynx.ProcessResponse) {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	s.ShuffledProcessResponses = append(s.ShuffledProcessResponses, newShuffledProcessResponses...)
 }
 
 // PullShuffledProcessResponses gets shuffled process responses
 func (s *Store) PullShuffledProcessResponses() []libunlynx.ProcessResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	result := s.ShuffledProcessResponses
 	s.ShuffledProcessResponses = nil //clear table
 	return result
@@ -135,11 +150,12 @@ func (s *Store) PushDeterministicFilteredResponses(detFilteredResponses []libunl
 
 	round := libunlynx.StartTimer(serverName + "_ServerLocalAggregation")
 
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	cvMap := make(map[libunlynx.GroupingKey][]libunlynx.CipherVector)
 	for _, v := range detFilteredResponses {
-		s.Mutex.Lock()
 		libunlynx.AddInMap(s.LocAggregatedProcessResponse, v.DetTagGroupBy, v.Fr)
-		s.Mutex.Unlock()
 
 		if proofsB {
 			v.FormatAggregationProofs(cvMap)
@@ -157,11 +173,17 @@ func (s *Store) PushDeterministicFilteredResponses(detFilteredResponses []libunl
 
 // HasNextAggregatedResponse verifies the presence of locally aggregated results.
 func (s *Store) HasNextAggregatedResponse() bool {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	return len(s.LocAggregatedProcessResponse) > 0
 }
 
 // PullLocallyAggregatedResponses permits to get the result of the collective and grouped aggregation
 func (s *Store) PullLocallyAggregatedResponses() map[libunlynx.GroupingKey]libunlynx.FilteredResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	LocGroupingAggregatingReturn := s.LocAggregatedProcessResponse
 	s.LocAggregatedProcessResponse = make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
 	return LocGroupingAggregatingReturn
@@ -247,20 +269,27 @@ func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 
 // PushCothorityAggregatedFilteredResponses handles the collective aggregation locally.
 func (s *Store) PushCothorityAggregatedFilteredResponses(sNew map[libunlynx.GroupingKey]libunlynx.FilteredResponse) {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	for key, value := range sNew {
-		s.Mutex.Lock()
 		libunlynx.AddInMap(s.GroupedDeterministicFilteredResponses, key, value)
-		s.Mutex.Unlock()
 	}
 }
 
 // HasNextAggregatedFilteredResponses verifies that the server has local grouping results (group attributes).
 func (s *Store) HasNextAggregatedFilteredResponses() bool {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	return len(s.GroupedDeterministicFilteredResponses) > 0
 }
 
 // PullCothorityAggregatedFilteredResponses returns the local results of the grouping.
 func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	aggregatedResults := make([]libunlynx.FilteredResponse, len(s.GroupedDeterministicFilteredResponses))
 	aggregatedGrps := make([]libunlynx.GroupingKey, len(s.GroupedDeterministicFilteredResponses))
 	count := 0
@@ -282,11 +311,17 @@ func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise lib
 
 // PushQuerierKeyEncryptedResponses handles the reception of the key switched (for the querier) results.
 func (s *Store) PushQuerierKeyEncryptedResponses(keySwitchedResponse []libunlynx.FilteredResponse) {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	s.DeliverableResults = keySwitchedResponse
 }
 
 // PullDeliverableResults gets the results.
 func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	results := s.DeliverableResults
 	s.DeliverableResults = nil
 
-- 
2.43.0


From 7fe315cf67e27327fdeb595844930fce638655fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 23/49] fix: hand protocol results over within the instance

---
 protocols/utils/addrm_server_protocol.go            | 9 +++++----
 protocols/utils/local_aggregation_protocol.go       | 9 +++++----
 protocols/utils/local_clear_aggregation_protocol.go | 9 +++++----
 protocols/utils/proofs_verification_protocol.go     | 9 +++++----
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/protocols/utils/addrm_server_protocol.go b/protocols/utils/addrm_server_protocol.go
index 9fbcc91..3ba56a8 100644
--- a/protocols/utils/addrm_server_protocol.go
+++ b/protocols/utils/addrm_server_protocol.go
@@ -33,6 +33,8 @@ type AddRmServerProtocol struct {
 
 	// Protocol feedback channel
 	FeedbackChannel chan []libunlynx.CipherText
+	// finalResult hands the result of this instance from Start to Dispatch
+	finalResult chan []libunlynx.CipherText
 
 	// Protocol state data
 	TargetOfTransformation []libunlynx.CipherText
@@ -46,13 +48,12 @@ func NewAddRmProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
 	pvp := &AddRmServerProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.CipherText),
+		finalResult:      make(chan []libunlynx.CipherText, 1),
 	}
 
 	return pvp, nil
 }
 
-var finalResultAddrm = make(chan []libunlynx.CipherText)
-
 // Start is called at the root to start the execution of the Add/Rm protocol.
 func (p *AddRmServerProtocol) Start() error {
 
@@ -85,7 +86,7 @@ func (p *AddRmServerProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAddrm <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -95,7 +96,7 @@ func (p *AddRmServerProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.CipherText
 	select {
-	case finalResultMessage = <-finalResultAddrm:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_aggregation_protocol.go b/protocols/utils/local_aggregation_protocol.go
index 665cb3b..e552516 100644
--- a/protocols/utils/local_aggregation_protocol.go
+++ b/protocols/utils/local_aggregation_protocol.go
@@ -23,14 +23,14 @@ func init() {
 // Protocol
 //______________________________________________________________________________________________________________________
 
-var finalResultAggr = make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
-
 // LocalAggregationProtocol is a struct holding the state of a protocol instance.
 type LocalAggregationProtocol struct {
 	*onet.TreeNodeInstance
 
 	// Protocol feedback channel
 	FeedbackChannel chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse
+	// finalResult hands the result of this instance from Start to Dispatch
+	finalResult chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 
 	// Protocol state data
 	TargetOfAggregation []libunlynx.FilteredResponseDet
@@ -42,6 +42,7 @@ func NewLocalAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstanc
 	pvp := &LocalAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse),
+		finalResult:      make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse, 1),
 	}
 	return pvp, nil
 }
@@ -75,7 +76,7 @@ func (p *LocalAggregationProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAggr <- resultingMap
+	p.finalResult <- resultingMap
 
 	return nil
 }
@@ -86,7 +87,7 @@ func (p *LocalAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 	select {
-	case finalResultMessage = <-finalResultAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_clear_aggregation_protocol.go b/protocols/utils/local_clear_aggregation_protocol.go
index 9e73549..fb6e2ef 100644
--- a/protocols/utils/local_clear_aggregation_protocol.go
+++ b/protocols/utils/local_clear_aggregation_protocol.go
@@ -28,6 +28,8 @@ type LocalClearAggregationProtocol struct {
 
 	// Protocol feedback channel
 	FeedbackChannel chan []libunlynx.DpClearResponse
+	// finalResult hands the result of this instance from Start to Dispatch
+	finalResult chan []libunlynx.DpClearResponse
 
 	// Protocol state data
 	TargetOfAggregation []libunlynx.DpClearResponse
@@ -38,19 +40,18 @@ func NewLocalClearAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolIn
 	pvp := &LocalClearAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.DpClearResponse),
+		finalResult:      make(chan []libunlynx.DpClearResponse, 1),
 	}
 	return pvp, nil
 }
 
-var finalResultClearAggr = make(chan []libunlynx.DpClearResponse)
-
 // Start is called at the root to start the execution of the local clear aggregation.
 func (p *LocalClearAggregationProtocol) Start() error {
 	log.Lvl1(p.ServerIdentity(), "started a local clear aggregation protocol")
 	roundComput := libunlynx.StartTimer(p.Name() + "_LocalClearAggregation(START)")
 	result := libunlynxstore.AddInClear(p.TargetOfAggregation)
 	libunlynx.EndTimer(roundComput)
-	finalResultClearAggr <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -60,7 +61,7 @@ func (p *LocalClearAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.DpClearResponse
 	select {
-	case finalResultMessage = <-finalResultClearAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/proofs_verification_protocol.go b/protocols/utils/proofs_verification_protocol.go
index 7cbf169..81a4efa 100644
--- a/protocols/utils/proofs_verification_protocol.go
+++ b/protocols/utils/proofs_verification_protocol.go
@@ -44,6 +44,8 @@ type ProofsVerificationProtocol struct {
 
 	// Protocol feedback channel
 	FeedbackChannel chan []bool
+	// finalResult hands the result of this instance from Start to Dispatch
+	finalResult chan []bool
 
 	// Protocol state data
 	TargetOfVerification ProofsToVerify
@@ -54,13 +56,12 @@ func NewProofsVerificationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInsta
 	pvp := &ProofsVerificationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []bool),
+		finalResult:      make(chan []bool, 1),
 	}
 
 	return pvp, nil
 }
 
-var finalResult = make(chan []bool)
-
 // Start is called at the root to start the execution of the key switching.
 func (p *ProofsVerificationProtocol) Start() error {
 
@@ -101,7 +102,7 @@ func (p *ProofsVerificationProtocol) Start() error {
 	result[5] = libunlynxaggr.AggregationListProofVerification(p.TargetOfVerification.CollectiveAggregationProofs, 1.0)
 	libunlynx.EndTimer(collectiveAggrTime)
 
-	finalResult <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -111,7 +112,7 @@ func (p *ProofsVerificationProtocol) Dispatch() error {
 
 	var finalResultMessage []bool
 	select {
-	case finalResultMessage = <-finalResult:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
-- 
2.43.0


From 4393017870307eb1cb2471f1001a5690979b51fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:32 +0000
Subject: [PATCH 24/49] fix: generate all groups when they are not random

---
 data/handle_data.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index 913b07f..3f95b90 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -82,6 +82,7 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 
 	testData := make(map[string][]libunlynx.DpClearResponse)
 
+	groups := make([][]int64, 0)
 	if !randomGroups {
 		numElem := 1
 		for _, el := range numType {
@@ -89,7 +90,6 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 		}
 
 		if int64(numElem) == numEntries {
-			groups := make([][]int64, 0)
 			group := make([]int64, 0)
 			AllPossibleGroups(numType[:], group, 0, &groups)
 		} else {
@@ -97,7 +97,6 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 		}
 	}
 
-	groups := make([][]int64, 0)
 	for i := int64(0); i < numDPs; i++ {
 		dpData := make([]libunlynx.DpClearResponse, numEntries)
 
-- 
2.43.0


From 654b760767002754bdc47ce7aae9b2cde0a007f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:32 +0000
Subject: [PATCH 25/49] fix: compute the expected result without changing the
 data

---
 data/handle_data.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index 3f95b90..f92c418 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -313,6 +313,15 @@ func ClearExpectedResult(expectedResult []libunlynx.DpClearResponse) []libunlynx
 	return clearExpectedResult
 }
 
+// repeatData returns the sum of the same data repeated the given number of times
+func repeatData(data map[string]int64, dataRepetitions int) map[string]int64 {
+	result := make(map[string]int64, len(data))
+	for k, v := range data {
+		result[k] = v * int64(dataRepetitions)
+	}
+	return result
+}
+
 // ComputeExpectedResult computes the expected results from the testData (we can then compare with the result obtained by service UnLynx)
 func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, dataRepetitions int, clear bool) []libunlynx.DpClearResponse {
 	allData := make([]libunlynx.DpClearResponse, 0)
@@ -322,12 +331,8 @@ func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, data
 
 			//if we repeated data
 			if dataRepetitions > 1 {
-				for k := range elem.AggregatingAttributesClear {
-					elem.AggregatingAttributesClear[k] = elem.AggregatingAttributesClear[k] * int64(dataRepetitions)
-				}
-				for k := range elem.AggregatingAttributesEnc {
-					elem.AggregatingAttributesEnc[k] = elem.AggregatingAttributesEnc[k] * int64(dataRepetitions)
-				}
+				elem.AggregatingAttributesClear = repeatData(elem.AggregatingAttributesClear, dataRepetitions)
+				elem.AggregatingAttributesEnc = repeatData(elem.AggregatingAttributesEnc, dataRepetitions)
 			}
 
 			allData = append(allData, elem)
-- 
2.43.0


From 56e7dc7f76161a6f87975842586bf5b4d7e5d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:32 +0000
Subject: [PATCH 26/49] fix: compare all records of two results

---
 data/handle_data.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index f92c418..515c796 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -350,26 +350,32 @@ func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, data
 
 // CompareClearResponses compares two DP ClearResponse arrays and returns true if they are the same or false otherwise
 func CompareClearResponses(x []libunlynx.DpClearResponse, y []libunlynx.DpClearResponse) bool {
-	var test bool
+	if len(x) != len(y) {
+		return false
+	}
+
+	matched := make([]bool, len(y))
 	for _, i := range x {
-		test = false
-		for _, j := range y {
-			if (reflect.DeepEqual(i.GroupByClear, j.GroupByClear) || (len(i.GroupByClear) == 0 && len(j.GroupByClear) == 0)) &&
+		test := false
+		for pos, j := range y {
+			if !matched[pos] &&
+				(reflect.DeepEqual(i.GroupByClear, j.GroupByClear) || (len(i.GroupByClear) == 0 && len(j.GroupByClear) == 0)) &&
 				(reflect.DeepEqual(i.GroupByEnc, j.GroupByEnc) || (len(i.GroupByEnc) == 0 && len(j.GroupByEnc) == 0)) &&
 				(reflect.DeepEqual(i.WhereClear, j.WhereClear) || (len(i.WhereClear) == 0 && len(j.WhereClear) == 0)) &&
 				(reflect.DeepEqual(i.WhereEnc, j.WhereEnc) || (len(i.WhereEnc) == 0 && len(j.WhereEnc) == 0)) &&
 				(reflect.DeepEqual(i.AggregatingAttributesClear, j.AggregatingAttributesClear) || (len(i.AggregatingAttributesClear) == 0 && len(j.AggregatingAttributesClear) == 0)) &&
 				(reflect.DeepEqual(i.AggregatingAttributesEnc, j.AggregatingAttributesEnc) || (len(i.AggregatingAttributesEnc) == 0 && len(j.AggregatingAttributesEnc) == 0)) {
 
+				matched[pos] = true
 				test = true
 				break
 			}
 		}
 
 		if !test {
-			break
+			return false
 		}
 	}
 
-	return test
+	return true
 }
-- 
2.43.0


From dddbe6ffdf5e16e9440a0f6bc043dcd65d677706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:36 +0000
Subject: [PATCH 27/49] fix: filter clear records by the value of their where
 attributes

---
 lib/store/store.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index a29c63f..ccfdc59 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -208,15 +208,18 @@ func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 
 		//generate a unique tag and use it to aggregate the data
 		key := groupByClear + groupByEnc + whereClear + whereEnc
-		key = key[:len(key)-1]
 
 		// if the where matches (all 1s) -> filter responses
-		if len(elem.WhereClear) > 0 || len(elem.WhereEnc) > 0 {
-			if key[len(key)-1:] == "0" {
-				//discard these entries
-				continue
+		keep := true
+		for _, v := range libunlynxtools.StringToInt64Array(whereClear + whereEnc) {
+			if v == 0 {
+				keep = false
 			}
 		}
+		if !keep {
+			//discard these entries
+			continue
+		}
 
 		cpy := make([]int64, 0)
 		cpy = append(cpy, libunlynxtools.ConvertMapToData(elem.AggregatingAttributesClear, "s", 0)...)
-- 
2.43.0


From 15198a04e098205924dc336a173e47899c3db9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:36 +0000
Subject: [PATCH 28/49] fix: read back empty test data and long lines

---
 data/handle_data.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index 515c796..6e85a62 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -228,6 +228,7 @@ func ReadDataFromFile(filename string) (map[string][]libunlynx.DpClearResponse,
 	var container []libunlynx.DpClearResponse
 
 	scanner := bufio.NewScanner(fileHandle)
+	scanner.Buffer(nil, math.MaxInt32)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if len(line) > 0 && strings.Compare(string(line[0]), "#") == 0 {
@@ -272,7 +273,9 @@ func ReadDataFromFile(filename string) (map[string][]libunlynx.DpClearResponse,
 			})
 		}
 	}
-	testData[id] = container
+	if dataIn {
+		testData[id] = container
+	}
 
 	if err := scanner.Err(); err != nil {
 		return nil, err
-- 
2.43.0


From c097ba29fcd6e9440d2dc8c7fac0f9e58cb8657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:04 +0000
Subject: [PATCH 29/49] fix: a predicate that cannot be evaluated or is not
 boolean keeps no record instead of crashing the server

---
 services/service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/services/service.go b/services/service.go
index dddecc0..400dd16 100644
--- a/services/service.go
+++ b/services/service.go
@@ -893,7 +893,11 @@ func FilterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttribu
 
 		}
 		keep, err := expression.Evaluate(parameters)
-		if keep.(bool) {
+		if err != nil {
+			log.Error("could not evaluate the predicate: ", err)
+			return nil
+		}
+		if satisfied, ok := keep.(bool); ok && satisfied {
 			result = append(result, libunlynx.FilteredResponseDet{DetTagGroupBy: v.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: v.PR.GroupByEnc, AggregatingAttributes: v.PR.AggregatingAttributes}})
 		}
 	}
-- 
2.43.0


From f33c6227d2f4ccc8f97758df898dc976dbb451af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 30/49] fix: noise generation ends for densities below the
 smallest float and quanta smaller than an int can count

---
 lib/differential_privacy/diff_privacy.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/differential_privacy/diff_privacy.go b/lib/differential_privacy/diff_privacy.go
index 3c750e3..354e49a 100644
--- a/lib/differential_privacy/diff_privacy.go
+++ b/lib/differential_privacy/diff_privacy.go
@@ -37,9 +37,10 @@ func GenerateNoiseValuesScale(n int64, mean, b, quanta, scale, limit float64) []
 	countOnes := 0
 	for int64(len(noise)) < n {
 		val := laplace.Pdf(float64(start))
-		rep := math.Ceil(val / quanta)
+		// the density is positive everywhere, even where it is too small to be represented
+		rep := math.Max(1, math.Ceil(val/quanta))
 		count := 0
-		for i := 0; i < int(rep); i++ {
+		for i := 0.0; i < rep; i++ {
 			if start == 0 {
 				noise = append(noise, float64(start*scale))
 			} else {
-- 
2.43.0


From e1c1ae83b1cb9f0314b9b1e52f8efcea73e572de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:31 +0000
Subject: [PATCH 31/49] fix: adding or removing a server with proofs works on
 an empty data set

---
 protocols/utils/addrm_server_protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/utils/addrm_server_protocol.go b/protocols/utils/addrm_server_protocol.go
index 3ba56a8..af02506 100644
--- a/protocols/utils/addrm_server_protocol.go
+++ b/protocols/utils/addrm_server_protocol.go
@@ -79,7 +79,7 @@ func (p *AddRmServerProtocol) Start() error {
 
 	roundProof = libunlynx.StartTimer(p.Name() + "_AddRmServer(PROOFSVerif)")
 
-	if p.Proofs && len(proofs.List) == 0 {
+	if p.Proofs && len(proofs.List) != len(p.TargetOfTransformation) {
 		return fmt.Errorf("something went wrong during the creation of the add/rm proofs")
 	}
 	libunlynxaddrm.AddRmListProofVerification(proofs, 1.0)
-- 
2.43.0


From 5e9c4717f7f5001f08b45eea6a1010b3eda98fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:39 +0000
Subject: [PATCH 32/49] fix: the client decrypts negative results

---
 services/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/services/api.go b/services/api.go
index 837637e..b8ed07a 100644
--- a/services/api.go
+++ b/services/api.go
@@ -96,8 +96,8 @@ func (c *API) SendSurveyResultsQuery(surveyID SurveyID) (*[][]int64, *[][]int64,
 	grp := make([][]int64, len(resp.Results))
 	aggr := make([][]int64, len(resp.Results))
 	for i, res := range resp.Results {
-		grp[i] = libunlynx.DecryptIntVector(c.private, &res.GroupByEnc)
-		aggr[i] = libunlynx.DecryptIntVector(c.private, &res.AggregatingAttributes)
+		grp[i] = libunlynx.DecryptIntVectorWithNeg(c.private, &res.GroupByEnc)
+		aggr[i] = libunlynx.DecryptIntVectorWithNeg(c.private, &res.AggregatingAttributes)
 	}
 	return &grp, &aggr, nil
 }
-- 
2.43.0


From c309e0c9e10370176dc778725a844fcfa0bf93de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:22 +0000
Subject: [PATCH 33/49] fix: storing responses does not undo concurrent updates
 of the survey

---
 services/service.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/services/service.go b/services/service.go
index 400dd16..f07ecce 100644
--- a/services/service.go
+++ b/services/service.go
@@ -218,12 +218,9 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 		if err := dr.FromDpResponseToSend(v); err != nil {
 			return err
 		}
+		// the store is shared: writing this copy of the survey back would undo concurrent updates of the survey
 		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
 	}
-	err = s.putSurvey(resp.SurveyID, survey)
-	if err != nil {
-		return err
-	}
 
 	log.Lvl1(s.ServerIdentity(), " uploaded response data for survey ", resp.SurveyID)
 	return nil
-- 
2.43.0


From c7e4e4a78f3845e7b384c7341b652275782ba1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:31 +0000
Subject: [PATCH 34/49] fix: any number of data providers can upload before the
 results are queried

---
 services/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/services/service.go b/services/service.go
index f07ecce..0ab50cf 100644
--- a/services/service.go
+++ b/services/service.go
@@ -339,8 +339,8 @@ func (s *Service) HandleSurveyResponseQuery(resp *SurveyResponseQuery) (network.
 		return nil, err
 	}
 
-	//number of data providers who have already pushed the data
-	survey.DpChannel <- 1
+	//number of data providers who have already pushed the data (does not wait: the channel may be full until the results are queried)
+	go func() { survey.DpChannel <- 1 }()
 	return &ServiceState{"1"}, nil
 }
 
-- 
2.43.0


From a2103e0c24198f6defb6b891f9362dd02ac4f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:31 +0000
Subject: [PATCH 35/49] fix: a failing protocol of a survey is logged instead
 of crashing the server

---
 services/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/services/service.go b/services/service.go
index 0ab50cf..92a8c54 100644
--- a/services/service.go
+++ b/services/service.go
@@ -603,12 +603,12 @@ func (s *Service) StartProtocol(name string, targetSurvey SurveyID) (onet.Protoc
 
 	go func(pname string) {
 		if tmpErr := pi.Dispatch(); tmpErr != nil {
-			log.Error("Error running Dispatch ->" + name + " :" + err.Error())
+			log.Error("Error running Dispatch ->" + name + " :" + tmpErr.Error())
 		}
 	}(name)
 	go func(pname string) {
 		if tmpErr := pi.Start(); tmpErr != nil {
-			log.Error("Error running Start ->" + name + " :" + err.Error())
+			log.Error("Error running Start ->" + name + " :" + tmpErr.Error())
 		}
 	}(name)
 
-- 
2.43.0


From a6ede41cd6a66cbfcc7d65bb35d8949e20f1c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 36/49] fix: refuse a query that cannot be parsed instead of
 sending an empty one

---
 cmd/unlynx/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 7709fff..6379df1 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -61,6 +61,7 @@ func runUnLynx(c *cli.Context) {
 	log.ErrFatal(err, "Could not open group toml.")
 
 	sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal, err := parseQuery(el, sum, count, whereQueryValues, predicate, groupBy)
+	log.ErrFatal(err, "Could not parse the query.")
 
 	err = startQuery(el, proofs, sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal)
 	log.ErrFatal(err)
-- 
2.43.0


From b58bdfc142f716cc17493bad8f0c60d40a8332ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 37/49] fix: accept the count attribute that count queries need

---
 cmd/unlynx/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 6379df1..233d469 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -95,7 +95,7 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		return nil, false, nil, "", nil, fmt.Errorf("wrong query! please check the sum, where and the predicate parameters")
 	}
 
-	sumRegex := "{s[0-9]+(,\\s*s[0-9]+)*}"
+	sumRegex := "{(s[0-9]+|count)(,\\s*(s[0-9]+|count))*}"
 	whereRegex := "{(w[0-9]+(,\\s*[0-9]+))*(,\\s*w[0-9]+(,\\s*[0-9]+))*}"
 	groupByRegex := "{g[0-9]+(,\\s*g[0-9]+)*}"
 
-- 
2.43.0


From af505438fc799556e87249023ae14886a7b99875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 38/49] fix: accept queries without where or groupBy parameters

---
 cmd/unlynx/client.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 233d469..ec7a02f 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -120,7 +120,7 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		}
 	}
 
-	if !checkRegex(where, whereRegex) {
+	if where != "" && !checkRegex(where, whereRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the where parameter(s)")
 	}
 	where = strings.Replace(where, " ", "", -1)
@@ -145,13 +145,16 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		}
 	}
 
-	if !checkRegex(groupBy, groupByRegex) {
-		return nil, false, nil, "", nil, fmt.Errorf("error parsing the groupBy parameter(s)")
+	groupByFinal := make([]string, 0)
+	if groupBy != "" {
+		if !checkRegex(groupBy, groupByRegex) {
+			return nil, false, nil, "", nil, fmt.Errorf("error parsing the groupBy parameter(s)")
+		}
+		groupBy = strings.Replace(groupBy, " ", "", -1)
+		groupBy = strings.Replace(groupBy, "{", "", -1)
+		groupBy = strings.Replace(groupBy, "}", "", -1)
+		groupByFinal = strings.Split(groupBy, ",")
 	}
-	groupBy = strings.Replace(groupBy, " ", "", -1)
-	groupBy = strings.Replace(groupBy, "{", "", -1)
-	groupBy = strings.Replace(groupBy, "}", "", -1)
-	groupByFinal := strings.Split(groupBy, ",")
 
 	return sumFinal, count, whereFinal, predicate, groupByFinal, nil
 }
-- 
2.43.0


From f307a71619b182782008dd7c8a5e1b4ae8972a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 39/49] fix: refuse query parameters with text around the list

---
 cmd/unlynx/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index ec7a02f..4530b07 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -85,7 +85,7 @@ func openGroupToml(tomlFileName string) (*onet.Roster, error) {
 }
 
 func checkRegex(input, expression string) bool {
-	var aux = regexp.MustCompile(expression)
+	var aux = regexp.MustCompile("^\\s*" + expression + "\\s*$")
 	return aux.MatchString(input)
 }
 
-- 
2.43.0


From 9146fe40d5368cbf8b247c4a99f281056b9001c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 40/49] fix: ignore all white space between query parameters,
 not only spaces

---
 cmd/unlynx/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 4530b07..c6d3d5a 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -102,7 +102,7 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 	if !checkRegex(sum, sumRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the sum parameter(s)")
 	}
-	sum = strings.Replace(sum, " ", "", -1)
+	sum = strings.Join(strings.Fields(sum), "")
 	sum = strings.Replace(sum, "{", "", -1)
 	sum = strings.Replace(sum, "}", "", -1)
 	sumFinal := strings.Split(sum, ",")
@@ -123,7 +123,7 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 	if where != "" && !checkRegex(where, whereRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the where parameter(s)")
 	}
-	where = strings.Replace(where, " ", "", -1)
+	where = strings.Join(strings.Fields(where), "")
 	where = strings.Replace(where, "{", "", -1)
 	where = strings.Replace(where, "}", "", -1)
 	whereTokens := strings.Split(where, ",")
@@ -150,7 +150,7 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		if !checkRegex(groupBy, groupByRegex) {
 			return nil, false, nil, "", nil, fmt.Errorf("error parsing the groupBy parameter(s)")
 		}
-		groupBy = strings.Replace(groupBy, " ", "", -1)
+		groupBy = strings.Join(strings.Fields(groupBy), "")
 		groupBy = strings.Replace(groupBy, "{", "", -1)
 		groupBy = strings.Replace(groupBy, "}", "", -1)
 		groupByFinal = strings.Split(groupBy, ",")
-- 
2.43.0


From 1959ead749638ebe5f84db1072acdc9a86750683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 41/49] fix: refuse a group file without servers instead of
 crashing

---
 cmd/unlynx/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index c6d3d5a..974b7a0 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -77,7 +77,7 @@ func openGroupToml(tomlFileName string) (*onet.Roster, error) {
 		return nil, err
 	}
 
-	if len(el.Roster.List) <= 0 {
+	if el.Roster == nil || len(el.Roster.List) <= 0 {
 		return nil, fmt.Errorf("empty or invalid unlynx group file: %v", tomlFileName)
 	}
 
-- 
2.43.0


From 7f6f267dac6e3480a2e69ed4b8272088d66354b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 42/49] fix: wait for the other servers' tagging outside the
 protocol creation, where it blocks all other surveys

---
 services/service.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/services/service.go b/services/service.go
index 92a8c54..bf1053c 100644
--- a/services/service.go
+++ b/services/service.go
@@ -485,7 +485,6 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 			return nil, err
 		}
 
-		// waits for all other nodes to finish the tagging phase
 		groupedData := survey.PullLocallyAggregatedResponses()
 		err = s.putSurvey(target, survey)
 		if err != nil {
@@ -500,11 +499,6 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 			return &proof
 		}
 
-		counter := len(tn.Roster().List) - 1
-		for counter > 0 {
-			counter = counter - (<-survey.DDTChannel)
-		}
-
 	case protocolsunlynx.DROProtocolName:
 		pi, err := protocolsunlynx.NewShufflingProtocol(tn)
 		if err != nil {
@@ -667,6 +661,12 @@ func (s *Service) StartService(targetSurvey SurveyID, root bool) error {
 
 	libunlynx.EndTimer(start)
 
+	// waits for all other nodes to finish the tagging phase
+	waiting := len(target.Query.Roster.List) - 1
+	for waiting > 0 {
+		waiting = waiting - (<-target.DDTChannel)
+	}
+
 	// Aggregation Phase
 	if root {
 		start := libunlynx.StartTimer(s.ServerIdentity().String() + "_AggregationPhase")
-- 
2.43.0


From b7b18f8d81dbc6b42b161175a569aff2bff2023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 43/49] fix: an upload with a malformed response left the
 responses before it in the store

---
 services/service.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/services/service.go b/services/service.go
index bf1053c..c2cddd0 100644
--- a/services/service.go
+++ b/services/service.go
@@ -213,11 +213,15 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 		return err
 	}
 
-	for _, v := range resp.Responses {
-		dr := libunlynx.DpResponse{}
-		if err := dr.FromDpResponseToSend(v); err != nil {
+	// an upload that cannot be decoded must not leave a part of its responses in the store
+	responses := make([]libunlynx.DpResponse, len(resp.Responses))
+	for i, v := range resp.Responses {
+		if err := responses[i].FromDpResponseToSend(v); err != nil {
 			return err
 		}
+	}
+
+	for _, dr := range responses {
 		// the store is shared: writing this copy of the survey back would undo concurrent updates of the survey
 		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
 	}
-- 
2.43.0


From 3641038a1a91c9013de5730bb6174e6f1ef24148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 44/49] fix: collective aggregation wrote the padding of a
 vector in the memory behind it

---
 protocols/collective_aggregation_protocol.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 8377c60..186674d 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -206,6 +206,11 @@ func (p *CollectiveAggregationProtocol) aggregationAnnouncementPhase() error {
 	return nil
 }
 
+// padded returns the vector followed by the zeros, without writing in the memory behind the vector.
+func padded(cv, zeros libunlynx.CipherVector) libunlynx.CipherVector {
+	return append(cv[:len(cv):len(cv)], zeros...)
+}
+
 // Results pushing up the tree containing aggregation results.
 func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libunlynx.GroupingKey][]libunlynx.CipherVector) (*map[libunlynx.GroupingKey]libunlynx.FilteredResponse, error) {
 	roundTotComput := libunlynx.StartTimer(p.Name() + "_CollectiveAggregation(ascendingAggregation)")
@@ -236,9 +241,9 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 				if ok {
 					encZeros := p.encryptedZeros(len(localAggr.AggregatingAttributes) - len(aggr.Fr.AggregatingAttributes))
 					if len(localAggr.AggregatingAttributes) > len(aggr.Fr.AggregatingAttributes) {
-						aggr.Fr.AggregatingAttributes = append(aggr.Fr.AggregatingAttributes, encZeros...)
+						aggr.Fr.AggregatingAttributes = padded(aggr.Fr.AggregatingAttributes, encZeros)
 					} else {
-						localAggr.AggregatingAttributes = append(localAggr.AggregatingAttributes, encZeros...)
+						localAggr.AggregatingAttributes = padded(localAggr.AggregatingAttributes, encZeros)
 						if p.Proofs {
 							for _, zero := range encZeros {
 								cvMap[aggr.DetTagGroupBy] = append(cvMap[aggr.DetTagGroupBy], libunlynx.CipherVector{zero})
@@ -283,7 +288,7 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 		detAggrResponses := make([]libunlynx.FilteredResponseDet, len(*p.GroupedData))
 		count := 0
 		for i, v := range *p.GroupedData {
-			v.AggregatingAttributes = append(v.AggregatingAttributes, p.encryptedZeros(maxLength-len(v.AggregatingAttributes))...)
+			v.AggregatingAttributes = padded(v.AggregatingAttributes, p.encryptedZeros(maxLength-len(v.AggregatingAttributes)))
 			detAggrResponses[count].DetTagGroupBy = i
 			detAggrResponses[count].Fr = v
 			count++
-- 
2.43.0


From 86b0ffabe564b25186b726ba3093eb3b7e2f338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 45/49] fix: key switching: refuse contributions of another
 length and announcements without a key, instead of crashing

---
 protocols/key_switching_protocol.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/protocols/key_switching_protocol.go b/protocols/key_switching_protocol.go
index 255c57c..527e97b 100644
--- a/protocols/key_switching_protocol.go
+++ b/protocols/key_switching_protocol.go
@@ -254,6 +254,10 @@ func (p *KeySwitchingProtocol) announcementKSPhase() (kyber.Point, []kyber.Point
 		return nil, nil, err
 	}
 
+	if len(message) == 0 {
+		return nil, nil, fmt.Errorf("no new public key to be switched on received")
+	}
+
 	return message[0], message[1:], nil
 }
 
@@ -273,8 +277,13 @@ func (p *KeySwitchingProtocol) ascendingKSPhase() (*libunlynx.CipherVector, erro
 			datas = append(datas, v)
 		}
 		for i := range length { // len of length is number of children
+			cvLength := libunlynxtools.UnsafeCastBytesToInts(length[i].Length)
+			if len(cvLength) != 1 || cvLength[0] != len(*p.NodeContribution) {
+				return nil, fmt.Errorf("invalid length of a child's contribution: %v instead of %d", cvLength, len(*p.NodeContribution))
+			}
+
 			cv := libunlynx.CipherVector{}
-			err := cv.FromBytes(datas[i].Data, libunlynxtools.UnsafeCastBytesToInts(length[i].Length)[0])
+			err := cv.FromBytes(datas[i].Data, cvLength[0])
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 0379e7f06c8ace2739a7b46da283006c1ab2c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 46/49] fix: deterministic tagging: refuse a message with
 another number of elements than were to be tagged

---
 protocols/deterministic_tagging_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocols/deterministic_tagging_protocol.go b/protocols/deterministic_tagging_protocol.go
index d0ec498..c2b4ac9 100644
--- a/protocols/deterministic_tagging_protocol.go
+++ b/protocols/deterministic_tagging_protocol.go
@@ -253,6 +253,9 @@ func (p *DeterministicTaggingProtocol) Dispatch() error {
 
 	if p.IsRoot() {
 		detCreatedData := deterministicTaggingTarget.Data
+		if len(detCreatedData) != len(*p.TargetOfSwitch) {
+			return fmt.Errorf("received %d tagged elements instead of %d", len(detCreatedData), len(*p.TargetOfSwitch))
+		}
 		TaggedData = make(libunlynx.DeterministCipherVector, len(*p.TargetOfSwitch))
 
 		for i, v := range detCreatedData {
-- 
2.43.0


From 3f7de7ace7114c709b57833986fdf557472e2ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 47/49] fix: shuffling: refuse rows of different lengths and
 results of another size than was sent, instead of crashing or losing rows

---
 protocols/shuffling+ddt_protocol.go |  9 +++++++++
 protocols/shuffling_protocol.go     | 30 +++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index 1999dea..96cab59 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -174,6 +174,15 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 		return err
 	}
 
+	if err := checkRows(sm.Data); err != nil {
+		return err
+	}
+	if p.IsRoot() {
+		if err := checkSameSize(sm.Data, *p.TargetData); err != nil {
+			return err
+		}
+	}
+
 	libunlynx.EndTimer(readData)
 
 	// STEP 1: Shuffling of the data
diff --git a/protocols/shuffling_protocol.go b/protocols/shuffling_protocol.go
index acc6fc7..46053de 100644
--- a/protocols/shuffling_protocol.go
+++ b/protocols/shuffling_protocol.go
@@ -207,6 +207,15 @@ func (p *ShufflingProtocol) Dispatch() error {
 	}
 	shuffleTarget := sm.Data
 
+	if err := checkRows(shuffleTarget); err != nil {
+		return err
+	}
+	if p.IsRoot() {
+		if err := checkSameSize(shuffleTarget, *p.ShuffleTarget); err != nil {
+			return err
+		}
+	}
+
 	timer := time.Now()
 	shufflingDispatch := libunlynx.StartTimer(p.Name() + "_Shuffling(DISPATCH)")
 
@@ -285,6 +294,27 @@ func (p *ShufflingProtocol) sendToNext(msg interface{}) error {
 	return nil
 }
 
+// checkRows returns an error if the rows to shuffle do not all have the same number of elements.
+func checkRows(rows []libunlynx.CipherVector) error {
+	for _, v := range rows {
+		if len(v) != len(rows[0]) {
+			return fmt.Errorf("rows of %d and %d elements cannot be shuffled together", len(rows[0]), len(v))
+		}
+	}
+	return nil
+}
+
+// checkSameSize returns an error if the rows (see checkRows) are not as many or not as long as the ones that were sent.
+func checkSameSize(rows, sent []libunlynx.CipherVector) error {
+	if len(rows) != len(sent) {
+		return fmt.Errorf("received %d rows instead of %d", len(rows), len(sent))
+	}
+	if len(rows) > 0 && len(rows[0]) != len(sent[0]) {
+		return fmt.Errorf("received rows of %d elements instead of %d", len(rows[0]), len(sent[0]))
+	}
+	return nil
+}
+
 // Marshal
 //______________________________________________________________________________________________________________________
 
-- 
2.43.0


From 68f6aafdf1dba7c6c217c820668b9ad732187436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 48/49] fix: collective aggregation: refuse a contribution
 whose lengths say that it is empty, instead of dropping it

---
 protocols/collective_aggregation_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 186674d..22c1668 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -419,6 +419,9 @@ func (sm *ChildAggregatedDataMessage) FromBytes(data []byte, gacbLength, aabLeng
 		return fmt.Errorf("invalid aggregated data: %d bytes are not enough", len(data))
 	}
 	elementLength := gacbLength*cipherTextSize + aabLength*cipherTextSize + dtbLength
+	if elementLength == 0 && len(data) > 0 {
+		return fmt.Errorf("invalid aggregated data: %d bytes for elements without length", len(data))
+	}
 
 	if elementLength != 0 && len(data) > 0 {
 		if len(data)%elementLength != 0 {
-- 
2.43.0


From 2556390bc73e2b0b0ca60b4ab1b3f53227eb9d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 49/49] fix: a server whose peers sent data no proof can be
 created for stopped altogether

---
 services/service.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/services/service.go b/services/service.go
index c2cddd0..a483f68 100644
--- a/services/service.go
+++ b/services/service.go
@@ -437,7 +437,9 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 		shuffle.ProofFunc = func(shuffleTarget, shuffledData []libunlynx.CipherVector, collectiveKey kyber.Point, beta [][]kyber.Scalar, pi []int) *libunlynxshuffle.PublishedShufflingProof {
 			proof, err := libunlynxshuffle.ShuffleProofCreation(shuffleTarget, shuffledData, libunlynx.SuiTe.Point().Base(), collectiveKey, beta, pi)
 			if err != nil {
-				log.Fatal(err)
+				// caused by what the other servers sent: no reason to end this one
+				log.Error("couldn't create proof: ", err)
+				return nil
 			}
 			return &proof
 		}
@@ -514,7 +516,9 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 		shuffle.ProofFunc = func(shuffleTarget, shuffledData []libunlynx.CipherVector, collectiveKey kyber.Point, beta [][]kyber.Scalar, pi []int) *libunlynxshuffle.PublishedShufflingProof {
 			proof, err := libunlynxshuffle.ShuffleProofCreation(shuffleTarget, shuffledData, libunlynx.SuiTe.Point().Base(), collectiveKey, beta, pi)
 			if err != nil {
-				log.Fatal(err)
+				// caused by what the other servers sent: no reason to end this one
+				log.Error("couldn't create proof: ", err)
+				return nil
 			}
 			return &proof
 		}
@@ -543,7 +547,9 @@ func (s *Service) NewProtocol(tn *onet.TreeNodeInstance, conf *onet.GenericConfi
 		keySwitch.ProofFunc = func(pubKey, targetPubKey kyber.Point, secretKey kyber.Scalar, ks2s, rBNegs []kyber.Point, vis []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
 			proof, err := libunlynxkeyswitch.KeySwitchListProofCreation(pubKey, targetPubKey, secretKey, ks2s, rBNegs, vis)
 			if err != nil {
-				log.Fatal(err)
+				// caused by what the other servers sent: no reason to end this one
+				log.Error("couldn't create proof: ", err)
+				return nil
 			}
 			return &proof
 		}
-- 
2.43.0

