From 71d486aeaf470278e387ae391fe589120527f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 01/41] fix: compare the signed maxSdkVersion of a v3 signer
 with the unsigned one

---
 signingblock/schemev3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signingblock/schemev3.go b/signingblock/schemev3.go
index f53f004..fd86eb0 100644
--- a/signingblock/schemev3.go
+++ b/signingblock/schemev3.go
@@ -195,8 +195,8 @@ func (s *schemeV3) verifySigner(signerBlock *bytes.Buffer, contentDigests map[co
 	if parsedMinSdkVersion != signedMinSdkVersion {
 		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
 	}
-	if parsedMaxSdkVersion != parsedMaxSdkVersion {
-		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
+	if parsedMaxSdkVersion != signedMaxSdkVersion {
+		result.addError("mismatch between parsed and signed maxSdkVersion: %d != %d", parsedMaxSdkVersion, signedMaxSdkVersion)
 	}
 
 	// Parse certificates
-- 
2.43.0


From e0c9c488b5285f520ed810417c59ab55348c4c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 02/41] fix: verify the content digests of v3.1 signers

---
 signingblock/schemev31.go    |  3 +++
 signingblock/signingblock.go | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/signingblock/schemev31.go b/signingblock/schemev31.go
index dd601e9..3cbbf9e 100644
--- a/signingblock/schemev31.go
+++ b/signingblock/schemev31.go
@@ -9,11 +9,14 @@ import (
 type schemeV31 struct {
 	backendV3  schemeV3
 	backendV31 schemeV3
+
+	contentDigestsV31 map[contentDigest][]byte
 }
 
 func (s *schemeV31) parseSigners(block *bytes.Buffer, contentDigests map[contentDigest][]byte, result *VerificationResult) {
 	v31ContentDigest := make(map[contentDigest][]byte)
 	s.backendV31.parseSigners(block, v31ContentDigest, result)
+	s.contentDigestsV31 = v31ContentDigest
 
 	s.backendV3.rotationMinSdkVersion = math.MaxInt32
 	for _, signer := range s.backendV31.signers {
diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 6054709..9343be5 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -579,6 +579,20 @@ func (s *signingBlock) verify(scheme signatureBlockScheme, block []byte, minSdkV
 		return contentDigests
 	}
 
+	if v31, ok := scheme.(*schemeV31); ok {
+		// The digests of the v3.1 signers are kept apart from those of the v3 base block,
+		// check those that the v3 block did not already vouch for.
+		unchecked := make(map[contentDigest][]byte)
+		for algo, digest := range v31.contentDigestsV31 {
+			if checked, prs := contentDigests[algo]; !prs || !bytes.Equal(checked, digest) {
+				unchecked[algo] = digest
+			}
+		}
+		if len(unchecked) != 0 && !s.verifyIntegrity(unchecked, res) {
+			return contentDigests
+		}
+	}
+
 	scheme.finalizeResult(minSdkVersion, maxSdkVersion, res)
 	return contentDigests
 }
-- 
2.43.0


From bc0b1e1a3def17c46f93a6acbb3867fb65cf1059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 03/41] fix: do not report certificates of a failed v3 attempt
 after falling back to v2

---
 signingblock/signingblock.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 9343be5..96de7dd 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -183,6 +183,9 @@ func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersi
 			res.Warnings = append(res.Warnings, fmt.Sprintf("schemeV3: %s", e.Error()))
 		}
 		res.Errors = nil
+		res.Certs = nil
+		res.SigningLineage = nil
+		res.ExtraResults = nil
 		contentDigests = s.pickAndVerify(blocks, minSdkVersion, maxSdkVersion, res)
 	}
 
-- 
2.43.0


From 065878af4dd5b1ded61b15e5d07454c37b039617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 04/41] fix: read an empty last entry of the signing block
 instead of ignoring the block

---
 signingblock/signingblock.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 96de7dd..e28ff68 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -497,7 +497,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 		switch bid := BlockId(id); bid {
 		case blockIdSchemeV2, blockIdSchemeV3, blockIdSchemeV31:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 
@@ -520,7 +520,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			// for verity signature verification.
 		case blockIdFrosting:
 			frostingBlock := make([]byte, entryLen-4)
-			if _, err = pairs.Read(frostingBlock); err != nil {
+			if _, err = io.ReadFull(pairs, frostingBlock); err != nil {
 				return
 			}
 
@@ -535,13 +535,13 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			}
 		case blockIdSourceStampV2:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			blocks[bid] = block
 		default:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			if res.ExtraBlocks == nil {
-- 
2.43.0


From c6eb511d1bafb2971014ce2a992e5146ec998d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 05/41] fix: do not take a read error for a missing signing
 block

---
 signingblock/signingblock.go | 47 ++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index e28ff68..6b5e8d9 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -126,6 +126,26 @@ func (e *signingBlockNotFoundError) Error() string {
 	return "Signature Block signature not found: " + e.err.Error()
 }
 
+// ioError means the file could not be read, which says nothing about the presence of the signing block.
+type ioError struct {
+	err error
+}
+
+func (e *ioError) Error() string {
+	return "failed to read the APK: " + e.err.Error()
+}
+
+func (e *ioError) Unwrap() error {
+	return e.err
+}
+
+func wrapFindBlocksError(err error) error {
+	if _, ok := err.(*ioError); ok {
+		return err
+	}
+	return &signingBlockNotFoundError{err}
+}
+
 func IsSigningBlockNotFoundError(err error) bool {
 	_, ok := err.(*signingBlockNotFoundError)
 	return ok
@@ -165,7 +185,7 @@ func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersi
 		res.Frosting.Error = frosting.verifyApk(r, s.sigBlockOffset, v2block, s.centralDirOffset, s.centralDirSize, s.eocd)
 	}
 	if err != nil {
-		err = &signingBlockNotFoundError{err}
+		err = wrapFindBlocksError(err)
 		return
 	}
 
@@ -242,7 +262,7 @@ func ExtractCertsReader(r io.ReadSeeker, minSdkVersion, maxSdkVersion int32) (ce
 	res := &VerificationResult{}
 	blocks, _, err := s.findSignatureBlocks(maxSdkVersion, res)
 	if err != nil {
-		err = &signingBlockNotFoundError{err}
+		err = wrapFindBlocksError(err)
 		return
 	}
 
@@ -306,11 +326,11 @@ func (s *signingBlock) findEocdMaxCommentSize(maxCommentSize int) error {
 	bufOffsetInFile := s.fileSize - int64(len(buf))
 
 	if _, err := s.file.Seek(bufOffsetInFile, io.SeekStart); err != nil {
-		return err
+		return &ioError{err}
 	}
 
 	if _, err := io.ReadFull(s.file, buf); err != nil {
-		return err
+		return &ioError{err}
 	}
 
 	maxCommentSize = len(buf) - eocdRecMinSize
@@ -344,21 +364,21 @@ func (s *signingBlock) findEocdMaxCommentSize(maxCommentSize int) error {
 	return errEocdNotFound
 }
 
-func (s *signingBlock) isZip64() bool {
+func (s *signingBlock) isZip64() (bool, error) {
 	locatorPos := s.eocdOffset - zip64LocatorSize
 	if locatorPos < 0 {
-		return false
+		return false, nil
 	}
 
 	if _, err := s.file.Seek(locatorPos, io.SeekStart); err != nil {
-		return false
+		return false, &ioError{err}
 	}
 
 	var magic uint32
 	if err := binary.Read(s.file, binary.LittleEndian, &magic); err != nil {
-		return false
+		return false, &ioError{err}
 	}
-	return magic == zip64LocatorMagic
+	return magic == zip64LocatorMagic, nil
 }
 
 func (s *signingBlock) pickScheme(blocks map[BlockId][]byte, minSdkVersion, maxSdkVersion int32) (schemeId int, scheme signatureBlockScheme, block []byte, err error) {
@@ -397,10 +417,12 @@ func (s *signingBlock) findApkSigningBlock() (block []byte, offset int64, err er
 	footer := make([]byte, 24)
 
 	if _, err = s.file.Seek(s.centralDirOffset-int64(len(footer)), io.SeekStart); err != nil {
+		err = &ioError{err}
 		return
 	}
 
 	if _, err = io.ReadFull(s.file, footer); err != nil {
+		err = &ioError{err}
 		return
 	}
 
@@ -430,10 +452,12 @@ func (s *signingBlock) findApkSigningBlock() (block []byte, offset int64, err er
 
 	block = make([]byte, totalSize)
 	if _, err = s.file.Seek(offset, io.SeekStart); err != nil {
+		err = &ioError{err}
 		return
 	}
 
 	if _, err = io.ReadFull(s.file, block); err != nil {
+		err = &ioError{err}
 		return
 	}
 
@@ -451,7 +475,10 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 		return
 	}
 
-	if s.isZip64() {
+	var zip64 bool
+	if zip64, err = s.isZip64(); err != nil {
+		return
+	} else if zip64 {
 		err = errors.New("ZIP64 APK not supported")
 		return
 	}
-- 
2.43.0


From 16cb007a0c657584fd621c26010456f842584484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 06/41] fix: reject signatures that do not fit the key instead
 of panicking

---
 signingblock/utils.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/signingblock/utils.go b/signingblock/utils.go
index 6be7bd1..ddf48d9 100644
--- a/signingblock/utils.go
+++ b/signingblock/utils.go
@@ -37,6 +37,22 @@ func getLenghtPrefixedSlice(r *bytes.Buffer) (*bytes.Buffer, error) {
 }
 
 func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataBytes, signature []byte) error {
+	switch algo {
+	case SigRsaPssWithSha256, SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
+		SigVerityRsaPkcs1V15WithSha256:
+		if _, ok := publicKey.(*rsa.PublicKey); !ok {
+			return fmt.Errorf("public key type %T does not match algorithm %s", publicKey, algo)
+		}
+	case SigEcdsaWithSha256, SigEcdsaWithSha512, SigVerityEcdsaWithSha256:
+		if _, ok := publicKey.(*ecdsa.PublicKey); !ok {
+			return fmt.Errorf("public key type %T does not match algorithm %s", publicKey, algo)
+		}
+	case SigDsaWithSha256, SigVerityDsaWithSha256:
+		if _, ok := publicKey.(*dsa.PublicKey); !ok {
+			return fmt.Errorf("public key type %T does not match algorithm %s", publicKey, algo)
+		}
+	}
+
 	switch algo {
 	case SigRsaPssWithSha256:
 		hashed := sha256.Sum256(signedDataBytes)
@@ -58,6 +74,8 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 		var params []*big.Int
 		if _, err := asn1.Unmarshal(signature, &params); err != nil {
 			return fmt.Errorf("failed to unmarshal ECDSA signature: %s", err.Error())
+		} else if len(params) < 2 {
+			return fmt.Errorf("malformed signature: expected 2 integers, got %d", len(params))
 		}
 
 		var hashed []byte
@@ -74,7 +92,9 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 
 		if algo == SigDsaWithSha256 || algo == SigVerityDsaWithSha256 {
 			k := publicKey.(*dsa.PublicKey)
-			hashed = hashed[:k.Q.BitLen()/8]
+			if qLen := k.Q.BitLen() / 8; qLen < len(hashed) {
+				hashed = hashed[:qLen]
+			}
 			if !dsa.Verify(k, hashed, params[0], params[1]) {
 				return errors.New("DSA verification failed.")
 			}
-- 
2.43.0


From 2a3df3068d6d8a5e7bba8ec07b31bcc6f7ae8417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 07/41] fix: reject a negative frosting key index

---
 signingblock/frosting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/frosting.go b/signingblock/frosting.go
index e514cb2..949bb5a 100644
--- a/signingblock/frosting.go
+++ b/signingblock/frosting.go
@@ -288,7 +288,7 @@ func (f *frostingInfo) parseFrostingBlock(block []byte) error {
 
 		keyIndex, err := f.readInt32(bf)
 		keys := strings.Split(frostingPublicKeys, ",")
-		if err != nil || int(keyIndex) >= len(keys) {
+		if err != nil || keyIndex < 0 || int(keyIndex) >= len(keys) {
 			return fmt.Errorf("invalid/unknown key used in this frosting (idx %d)!", keyIndex)
 		}
 
-- 
2.43.0


From 8254fa78626dcb61428cb234ee643748db2ec1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 08/41] fix: report an empty source stamp lineage as an error

---
 signingblock/sourcestamp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signingblock/sourcestamp.go b/signingblock/sourcestamp.go
index 9e538c1..b4f9cf8 100644
--- a/signingblock/sourcestamp.go
+++ b/signingblock/sourcestamp.go
@@ -468,6 +468,10 @@ func (v *sourceStampVerifier) parseStampCertLineage(lineage *bytes.Buffer) []*So
 			Flags:      flags,
 		})
 	}
+
+	if len(res) == 0 {
+		v.addError("lineage is empty")
+	}
 	return res
 }
 
-- 
2.43.0


From 0f93a85633baabee0982325f84be5c2e01eb40a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 09/41] fix: choose between equally strong source stamp
 signatures deterministically

---
 signingblock/sourcestamp.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/signingblock/sourcestamp.go b/signingblock/sourcestamp.go
index b4f9cf8..8ca05bb 100644
--- a/signingblock/sourcestamp.go
+++ b/signingblock/sourcestamp.go
@@ -216,6 +216,7 @@ func (v *sourceStampVerifier) getSignatureSchemeDigest(contentDigests map[conten
 }
 
 func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificate, signatures *bytes.Buffer) bool {
+	var algoOrder []SignatureAlgorithm
 	supportedSignatures := map[SignatureAlgorithm][]byte{}
 	for count := 0; signatures.Len() != 0; count++ {
 		signature, err := getLenghtPrefixedSlice(signatures)
@@ -240,6 +241,9 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 			v.addError("failed to parse signature bytes %d: %s", count, err.Error())
 			return false
 		}
+		if _, prs := supportedSignatures[sigAlgoId]; !prs {
+			algoOrder = append(algoOrder, sigAlgoId)
+		}
 		supportedSignatures[sigAlgoId] = sigBytes.Bytes()
 	}
 
@@ -248,7 +252,7 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 		return false
 	}
 
-	toVerify := v.filterSignaturesToVerify(supportedSignatures)
+	toVerify := v.filterSignaturesToVerify(algoOrder, supportedSignatures)
 	if len(toVerify) == 0 {
 		v.addError("no supported signatures for verification")
 		return false
@@ -264,7 +268,7 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 	return true
 }
 
-func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureAlgorithm][]byte) map[SignatureAlgorithm][]byte {
+func (v *sourceStampVerifier) filterSignaturesToVerify(algoOrder []SignatureAlgorithm, signatures map[SignatureAlgorithm][]byte) map[SignatureAlgorithm][]byte {
 	type signature struct {
 		algo SignatureAlgorithm
 		data []byte
@@ -273,7 +277,9 @@ func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureA
 	candidates := map[int32]*signature{}
 
 	var minProvidedSignaturesVersion int32 = math.MaxInt32
-	for algo, content := range signatures {
+	// In the order of appearance, so that the choice between equally strong algorithms is deterministic.
+	for _, algo := range algoOrder {
+		content := signatures[algo]
 		sigMin := algo.getMinSdkVersionJca()
 		if sigMin > v.maxSdkVersion {
 			continue
@@ -289,7 +295,7 @@ func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureA
 
 	if v.minSdkVersion < minProvidedSignaturesVersion || len(candidates) == 0 {
 		var present []string
-		for algo := range signatures {
+		for _, algo := range algoOrder {
 			present = append(present, algo.String())
 		}
 
-- 
2.43.0


From c4a0c83dc02a17e20a0023ecd187de8916581d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 10/41] fix: report a source stamp file when the APK has no
 signing block at all

---
 signingblock/signingblock.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 6b5e8d9..5579bf3 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -186,6 +186,11 @@ func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersi
 	}
 	if err != nil {
 		err = wrapFindBlocksError(err)
+		if IsSigningBlockNotFoundError(err) {
+			// Reports a stamp file left behind without its block.
+			stampVerifier := sourceStampVerifier{verifiedSchemeId: schemeIdV1, minSdkVersion: minSdkVersion, maxSdkVersion: maxSdkVersion}
+			res.SourceStamp = stampVerifier.VerifySourceV2Stamp(optionalZip, nil, nil)
+		}
 		return
 	}
 
-- 
2.43.0


From 212d4cd7d6b3e99f19de99cf585201a3fe640e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 11/41] fix: verify the digest of AndroidManifest.xml in v1
 signed APKs

---
 schemev1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index a9eb65f..87682d9 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -464,7 +464,7 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 		}
 	}
 
-	if !hasAndroidManifest && !hasBundleConfig {
+	if hasAndroidManifest || !hasBundleConfig {
 		required = append(required, "AndroidManifest.xml")
 	}
 
-- 
2.43.0


From 38a4fce9ac6392eef55c5f5762a6adeb65b859bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 12/41] fix: do not skip v1 verification of files that only
 claim to be directories

---
 schemev1.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 87682d9..4e88355 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -449,11 +449,12 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 	hasAndroidManifest := false
 	hasBundleConfig := false
 	for path, zf := range apk.File {
-		if zf.IsDir {
+		// Like Android, go by the name. The directory flag in the external attributes can be set on any file.
+		if hdr := zf.ZipHeader(); hdr != nil && strings.HasSuffix(hdr.Name, "/") {
 			continue
 		}
 
-		if !zf.IsDir && path != "AndroidManifest.xml" && !strings.HasPrefix(path, "META-INF/") {
+		if path != "AndroidManifest.xml" && !strings.HasPrefix(path, "META-INF/") {
 			required = append(required, path)
 		}
 
-- 
2.43.0


From c49295acbdc93c3eee0c6dbd8d59dc2a912e3ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 13/41] fix: keep v1 signatures in different META-INF
 directories apart

---
 schemev1.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 4e88355..f17306b 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -19,7 +19,6 @@ import (
 	"io"
 	"io/ioutil"
 	"math/big"
-	"path/filepath"
 	"sort"
 	"strconv"
 	"strings"
@@ -297,9 +296,8 @@ func (p *schemeV1) addSignatureBlock(pathUpper string, f *apkparser.ZipReaderFil
 }
 
 func (p *schemeV1) signaturePrefix(pathUpper string) string {
-	fn := filepath.Base(pathUpper)
-	idx := strings.LastIndexByte(fn, '.')
-	return fn[:idx]
+	idx := strings.LastIndexByte(pathUpper, '.')
+	return pathUpper[:idx]
 }
 
 func (p *schemeV1) prepForVerification() error {
-- 
2.43.0


From 3058529a5fd13092668c3b999ff47abc75de5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 14/41] fix: process v1 signatures in the order of the files
 instead of randomly

---
 schemev1.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index f17306b..696d798 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -128,6 +128,7 @@ type schemeV1Signature struct {
 
 type schemeV1 struct {
 	sigs     map[string]*schemeV1Signature
+	sigOrder []string // keys of sigs in the order of the files in the ZIP
 	manifest *manifest
 	hashers  map[string]hash.Hash
 	chain    [][]*x509.Certificate
@@ -157,7 +158,7 @@ func extractCertsSchemeV1(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion
 	}
 
 	var signatureErrors []error
-	for _, sig := range scheme.sigs {
+	for _, sig := range scheme.orderedSigs() {
 		sig.chain, err = scheme.verifySignature(sig, minSdkVersion, maxSdkVersion)
 		if sig.chain != nil {
 			scheme.chain = append(scheme.chain, sig.chain)
@@ -226,6 +227,7 @@ func newSchemeV1(apk *apkparser.ZipReader) (*schemeV1, error) {
 
 		// The same signatureFile can't be used by another signature block
 		delete(signatureFiles, sfname)
+		scheme.sigOrder = append(scheme.sigOrder, scheme.signaturePrefix(name))
 	}
 
 	if err := scheme.prepForVerification(); err != nil {
@@ -300,6 +302,16 @@ func (p *schemeV1) signaturePrefix(pathUpper string) string {
 	return pathUpper[:idx]
 }
 
+func (p *schemeV1) orderedSigs() []*schemeV1Signature {
+	res := make([]*schemeV1Signature, 0, len(p.sigs))
+	for _, name := range p.sigOrder {
+		if sig := p.sigs[name]; sig != nil {
+			res = append(res, sig)
+		}
+	}
+	return res
+}
+
 func (p *schemeV1) prepForVerification() error {
 	if p.manifest == nil {
 		return errors.New("No valid MANIFEST.SF")
@@ -322,7 +334,8 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 	var err error
 	validSignatures := map[string]*schemeV1Signature{}
 	var signatureErrors []error
-	for sigName, sig := range p.sigs {
+	for _, sigName := range p.sigOrder {
+		sig := p.sigs[sigName]
 		sig.chain, err = p.verifySignature(sig, minSdkVersion, maxSdkVersion)
 		if sig.chain != nil {
 			p.chain = append(p.chain, sig.chain)
@@ -467,6 +480,8 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 		required = append(required, "AndroidManifest.xml")
 	}
 
+	sort.Strings(required)
+
 	chainsSet := false
 	for _, path := range required {
 		attrs, prs := p.manifest.entries[path]
@@ -482,7 +497,7 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 		}
 
 		var certChains [][]*x509.Certificate
-		for _, sig := range p.sigs {
+		for _, sig := range p.orderedSigs() {
 			if _, prs := sig.signatureManifest.entries[path]; prs {
 				certChains = append(certChains, sig.chain)
 			}
-- 
2.43.0


From 0106792fd88a1d546b0f95ba8042e7feb5b62d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 15/41] fix: reject unknown v1 signature algorithms and
 mismatched keys instead of panicking

---
 schemev1.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 696d798..30d28e3 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -708,7 +708,7 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 		dea := info.DigestEncryptionAlgorithm.Algorithm.String()
 		algo, prs := oidToAlgo[fmt.Sprintf("%s %s", da, dea)]
 		if !prs {
-			panic(fmt.Sprintf("Unknown digest algorithm: '%s %s'", da, dea))
+			return chain, fmt.Errorf("Unknown digest algorithm: '%s %s'", da, dea)
 		}
 
 		var signedData []byte
@@ -875,7 +875,10 @@ func (p *schemeV1) checkSignature(cert *x509.Certificate, algo x509.SignatureAlg
 		hasher.Write(signed)
 		hash := hasher.Sum(nil)
 
-		pub := cert.PublicKey.(*dsa.PublicKey)
+		pub, ok := cert.PublicKey.(*dsa.PublicKey)
+		if !ok {
+			return fmt.Errorf("Unexpected public key type (%T)!", cert.PublicKey)
+		}
 		reqLen := pub.Q.BitLen() / 8
 		if reqLen > len(hash) {
 			reqLen = len(hash)
-- 
2.43.0


From 0e3539d7f41341055e4678dd9425b58571aededa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 16/41] fix: accept every supported digest algorithm together
 with signed attributes

---
 schemev1.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/schemev1.go b/schemev1.go
index 30d28e3..3feda56 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -60,6 +60,9 @@ var (
 	oidAttributeMessageDigest = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}
 	oidDigestAlgorithmSHA1    = asn1.ObjectIdentifier{1, 3, 14, 3, 2, 26}
 	oidDigestAlgorithmSHA256  = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 1}
+	oidDigestAlgorithmSHA384  = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 2}
+	oidDigestAlgorithmSHA512  = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 3}
+	oidDigestAlgorithmSHA224  = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 4}
 )
 
 var oidToAlgo = map[string]x509.SignatureAlgorithm{
@@ -653,6 +656,12 @@ func (p *schemeV1) getHashForOID(oid asn1.ObjectIdentifier) (crypto.Hash, error)
 		return crypto.SHA1, nil
 	case oid.Equal(oidDigestAlgorithmSHA256):
 		return crypto.SHA256, nil
+	case oid.Equal(oidDigestAlgorithmSHA384):
+		return crypto.SHA384, nil
+	case oid.Equal(oidDigestAlgorithmSHA512):
+		return crypto.SHA512, nil
+	case oid.Equal(oidDigestAlgorithmSHA224):
+		return crypto.SHA224, nil
 	}
 	return crypto.Hash(0), fmt.Errorf("unsupported hash algorithm oid %s", oid.String())
 }
-- 
2.43.0


From c9829abcc3cb09354ba827b0e66f945afc353a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 17/41] fix: do not read past the end of a manifest that ends
 with a colon

---
 manifest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 60c0dc7..933516f 100644
--- a/manifest.go
+++ b/manifest.go
@@ -138,7 +138,7 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 		if ctx.data[ctx.pos] == ':' {
 			name = string(ctx.data[mark:ctx.pos])
 
-			if ctx.pos+1 > len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
+			if ctx.pos+1 >= len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
 				err = fmt.Errorf("Invalid header structure '%s'", name)
 				return
 			}
-- 
2.43.0


From dde256b97b724e70da1c7f3501420863e9cb0e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 18/41] fix: pick the best certificate independently of the
 order of the signers

---
 certinfo.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/certinfo.go b/certinfo.go
index f21b560..ac62e92 100644
--- a/certinfo.go
+++ b/certinfo.go
@@ -37,11 +37,11 @@ func (c byPreference) Less(i, j int) bool {
 	}
 
 	now := time.Now()
+	iValid := !now.Before(ci.NotBefore) && !now.After(ci.NotAfter)
+	jValid := !now.Before(cj.NotBefore) && !now.After(cj.NotAfter)
 	// expired cert is "More" than not-expired one
-	if ci.NotAfter.After(now) || ci.NotBefore.Before(now) {
-		return false
-	} else if cj.NotAfter.After(now) || cj.NotBefore.Before(now) {
-		return true
+	if iValid != jValid {
+		return iValid
 	}
 
 	if !ci.NotBefore.Equal(cj.NotBefore) {
@@ -49,7 +49,7 @@ func (c byPreference) Less(i, j int) bool {
 	}
 
 	if !ci.NotAfter.Equal(cj.NotAfter) {
-		return ci.NotAfter.Sub(ci.NotBefore) > cj.NotAfter.Sub(cj.NotBefore)
+		return ci.NotAfter.After(cj.NotAfter)
 	}
 	return bytes.Compare(ci.Raw, cj.Raw) > 0
 }
-- 
2.43.0


From b73d3dbb39c8cfdd9887dc3abcb0c2456fcb1d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 19/41] fix: convert truncated, empty and deeply nested BER
 without panicking

---
 fullsailor/pkcs7/ber.go | 52 ++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/fullsailor/pkcs7/ber.go b/fullsailor/pkcs7/ber.go
index 3f56ea6..d076bd8 100644
--- a/fullsailor/pkcs7/ber.go
+++ b/fullsailor/pkcs7/ber.go
@@ -61,7 +61,7 @@ func ber2der(ber []byte) ([]byte, error) {
 	//fmt.Printf("--> ber2der: Transcoding %d bytes\n", len(ber))
 	out := new(bytes.Buffer)
 
-	obj, _, err := readObject(ber, 0)
+	obj, _, err := readObject(ber, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -132,18 +132,34 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 	return
 }
 
-func readObject(ber []byte, offset int) (asn1Object, int, error) {
+// maxNesting limits the depth of the recursion, no legitimate PKCS#7 structure comes close.
+const maxNesting = 128
+
+var errTruncated = errors.New("ber2der: BER header is truncated")
+
+// readObject reads one object from ber, which must end where the innermost enclosing object
+// of definite length ends.
+func readObject(ber []byte, offset, depth int) (asn1Object, int, error) {
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
+	if depth > maxNesting {
+		return nil, 0, errors.New("ber2der: BER objects are nested too deep")
+	}
 	tagStart := offset
+	if offset >= len(ber) {
+		return nil, 0, errTruncated
+	}
 	b := ber[offset]
 	offset++
 	tag := b & 0x1F // last 5 bits
 	if tag == 0x1F {
 		tag = 0
-		for ber[offset] >= 0x80 {
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			tag = tag*128 + ber[offset] - 0x80
 			offset++
 		}
+		if offset >= len(ber) {
+			return nil, 0, errTruncated
+		}
 		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
@@ -159,6 +175,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 	*/
 	// read length
 	var length int
+	if offset >= len(ber) {
+		return nil, 0, errTruncated
+	}
 	l := ber[offset]
 	offset++
 	indefinite := false
@@ -167,6 +186,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if offset+numberOfBytes > len(ber) {
+			return nil, 0, errTruncated
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
@@ -207,17 +229,13 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		}
 	} else {
 		var subObjects []asn1Object
+		content := ber
+		if !indefinite {
+			content = ber[:contentEnd]
+		}
 		for (offset < contentEnd) || indefinite {
-			var subObj asn1Object
-			var err error
-			subObj, offset, err = readObject(ber, offset)
-			if err != nil {
-				return nil, 0, err
-			}
-			subObjects = append(subObjects, subObj)
-
 			if indefinite {
-				terminated, err := isIndefiniteTermination(ber, offset)
+				terminated, err := isIndefiniteTermination(content, offset)
 				if err != nil {
 					return nil, 0, err
 				}
@@ -226,6 +244,14 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 					break
 				}
 			}
+
+			var subObj asn1Object
+			var err error
+			subObj, offset, err = readObject(content, offset, depth+1)
+			if err != nil {
+				return nil, 0, err
+			}
+			subObjects = append(subObjects, subObj)
 		}
 		obj = asn1Structured{
 			tagBytes: ber[tagStart:tagEnd],
@@ -246,5 +272,5 @@ func isIndefiniteTermination(ber []byte, offset int) (bool, error) {
 		return false, errors.New("ber2der: Invalid BER format")
 	}
 
-	return bytes.Index(ber[offset:], []byte{0x0, 0x0}) == 0, nil
+	return ber[offset] == 0 && ber[offset+1] == 0, nil
 }
-- 
2.43.0


From 3c6a2f992a7ce73145d56dcc0f91ef797bfa9169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 20/41] fix: reject signatures by keys larger than Android
 supports instead of verifying them for minutes

---
 fullsailor/pkcs7/pkcs7.go |  3 +++
 internal/x509andr/x509.go | 24 ++++++++++++++++++++++++
 schemev1.go               |  5 +++++
 signingblock/utils.go     |  6 ++++++
 4 files changed, 38 insertions(+)

diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index f8e882d..7cc0923 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -279,6 +279,9 @@ func verifySignature(p7 *PKCS7, signer signerInfo) error {
 	if cert == nil {
 		return errors.New("pkcs7: No certificate for signer")
 	}
+	if err := x509andr.CheckPublicKeySize(cert.PublicKey); err != nil {
+		return err
+	}
 
 	algo := getSignatureAlgorithmFromAI(signer.DigestEncryptionAlgorithm)
 	if algo == x509.UnknownSignatureAlgorithm {
diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index 548d126..5452d76 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -956,6 +956,30 @@ type distributionPointName struct {
 	RelativeName pkix.RDNSequence `asn1:"optional,tag:1"`
 }
 
+const (
+	// Limits of BoringSSL, which Android uses. The time it takes to verify a signature
+	// grows quadratically or worse with the size of the key.
+	maxRSABits = 16 * 1024
+	maxDSABits = 10000
+)
+
+// CheckPublicKeySize returns an error if pub is too big to verify signatures with it in a reasonable time.
+func CheckPublicKeySize(pub interface{}) error {
+	switch pub := pub.(type) {
+	case *rsa.PublicKey:
+		if bits := pub.N.BitLen(); bits > maxRSABits {
+			return fmt.Errorf("x509: RSA key is too large: %d bits", bits)
+		}
+	case *dsa.PublicKey:
+		for _, n := range []*big.Int{pub.P, pub.Q, pub.G, pub.Y} {
+			if bits := n.BitLen(); bits > maxDSABits {
+				return fmt.Errorf("x509: DSA key is too large: %d bits", bits)
+			}
+		}
+	}
+	return nil
+}
+
 func parsePublicKey(algo PublicKeyAlgorithm, keyData *publicKeyInfo, needsReencode *bool) (interface{}, error) {
 	asn1Data := keyData.PublicKey.RightAlign()
 	switch algo {
diff --git a/schemev1.go b/schemev1.go
index 3feda56..bfe0a65 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -24,6 +24,7 @@ import (
 	"strings"
 
 	"github.com/avast/apkverifier/internal/asn1andr"
+	"github.com/avast/apkverifier/internal/x509andr"
 
 	"github.com/avast/apkverifier/apilevel"
 
@@ -847,6 +848,10 @@ type dsaSignature struct {
 type ecdsaSignature dsaSignature
 
 func (p *schemeV1) checkSignature(cert *x509.Certificate, algo x509.SignatureAlgorithm, signed, signature []byte) error {
+	if err := x509andr.CheckPublicKeySize(cert.PublicKey); err != nil {
+		return err
+	}
+
 	// Go1.15 rejects signatures without padding, add one.
 	if rsaPub, ok := cert.PublicKey.(*rsa.PublicKey); ok {
 		pubSize := (rsaPub.N.BitLen() + 7) / 8 // rsaPub.Size(), but .Size() is only since go1.11
diff --git a/signingblock/utils.go b/signingblock/utils.go
index ddf48d9..cb31001 100644
--- a/signingblock/utils.go
+++ b/signingblock/utils.go
@@ -15,6 +15,8 @@ import (
 	"fmt"
 	"math/big"
 	"strings"
+
+	"github.com/avast/apkverifier/internal/x509andr"
 )
 
 func getLenghtPrefixedSlice(r *bytes.Buffer) (*bytes.Buffer, error) {
@@ -37,6 +39,10 @@ func getLenghtPrefixedSlice(r *bytes.Buffer) (*bytes.Buffer, error) {
 }
 
 func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataBytes, signature []byte) error {
+	if err := x509andr.CheckPublicKeySize(publicKey); err != nil {
+		return err
+	}
+
 	switch algo {
 	case SigRsaPssWithSha256, SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
 		SigVerityRsaPkcs1V15WithSha256:
-- 
2.43.0


From 8ca5dbbeb3e29472a5c7d946171fca1b74e8990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 21/41] fix: join manifest continuation lines in linear time

---
 manifest.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/manifest.go b/manifest.go
index 933516f..7f10a7a 100644
--- a/manifest.go
+++ b/manifest.go
@@ -164,6 +164,7 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 	mark = ctx.pos
 	last := ctx.pos
 	lastCr := false
+	var buf []byte
 
 	for ctx.pos < len(ctx.data) {
 		next := ctx.data[ctx.pos]
@@ -186,7 +187,7 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 			continue
 		case ' ':
 			if ctx.consecutiveLineBreaks == 1 {
-				value += string(ctx.data[mark:last])
+				buf = append(buf, ctx.data[mark:last]...)
 				mark = ctx.pos
 				ctx.consecutiveLineBreaks = 0
 				continue
@@ -201,8 +202,9 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 	}
 
 	if last > mark {
-		value += string(ctx.data[mark:last])
+		buf = append(buf, ctx.data[mark:last]...)
 	}
+	value = string(buf)
 	singleBlock = ctx.consecutiveLineBreaks > 0
 	return
 }
-- 
2.43.0


From dc665afe2ff57b9b441ee83fd9f85a0fc1b03a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 22/41] fix: return errors instead of panicking or looping on
 malformed enveloped data

---
 fullsailor/pkcs7/pkcs7.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index 7cc0923..80114ec 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -371,7 +371,7 @@ func (p7 *PKCS7) Decrypt(cert *x509.Certificate, pk crypto.PrivateKey) ([]byte,
 	if recipient.EncryptedKey == nil {
 		return nil, errors.New("pkcs7: no enveloped recipient for provided certificate")
 	}
-	if priv := pk.(*rsa.PrivateKey); priv != nil {
+	if priv, ok := pk.(*rsa.PrivateKey); ok && priv != nil {
 		var contentKey []byte
 		contentKey, err := rsa.DecryptPKCS1v15(rand.Reader, priv, recipient.EncryptedKey)
 		if err != nil {
@@ -379,7 +379,7 @@ func (p7 *PKCS7) Decrypt(cert *x509.Certificate, pk crypto.PrivateKey) ([]byte,
 		}
 		return data.EncryptedContentInfo.decrypt(contentKey)
 	}
-	fmt.Printf("Unsupported Private Key: %v\n", pk)
+	fmt.Printf("Unsupported Private Key: %T\n", pk)
 	return nil, ErrUnsupportedAlgorithm
 }
 
@@ -407,13 +407,14 @@ func (eci encryptedContentInfo) decrypt(key []byte) ([]byte, error) {
 		// Complex case to concat all of the children OCTET STRINGs
 		var buf bytes.Buffer
 		cypherbytes := eci.EncryptedContent.Bytes
-		for {
+		for len(cypherbytes) > 0 {
 			var part []byte
-			cypherbytes, _ = asn1andr.Unmarshal(cypherbytes, &part)
-			buf.Write(part)
-			if cypherbytes == nil {
-				break
+			var err error
+			cypherbytes, err = asn1andr.Unmarshal(cypherbytes, &part)
+			if err != nil {
+				return nil, err
 			}
+			buf.Write(part)
 		}
 		cyphertext = buf.Bytes()
 	} else {
@@ -472,6 +473,9 @@ func (eci encryptedContentInfo) decrypt(key []byte) ([]byte, error) {
 	if len(iv) != block.BlockSize() {
 		return nil, errors.New("pkcs7: encryption algorithm parameters are malformed")
 	}
+	if len(cyphertext)%block.BlockSize() != 0 {
+		return nil, fmt.Errorf("pkcs7: invalid length of encrypted content %d", len(cyphertext))
+	}
 	mode := cipher.NewCBCDecrypter(block, iv)
 	plaintext := make([]byte, len(cyphertext))
 	mode.CryptBlocks(plaintext, cyphertext)
@@ -517,6 +521,10 @@ func unpad(data []byte, blocklen int) ([]byte, error) {
 	// the last byte is the length of padding
 	padlen := int(data[len(data)-1])
 
+	if padlen < 1 || padlen > blocklen {
+		return nil, errors.New("invalid padding")
+	}
+
 	// check padding integrity, all bytes should be the same
 	pad := data[len(data)-padlen:]
 	for _, padbyte := range pad {
@@ -987,7 +995,7 @@ func marshalEncryptedContent(content []byte) asn1.RawValue {
 }
 
 func encryptKey(key []byte, recipient *x509.Certificate) ([]byte, error) {
-	if pub := recipient.PublicKey.(*rsa.PublicKey); pub != nil {
+	if pub, ok := recipient.PublicKey.(*rsa.PublicKey); ok && pub != nil {
 		return rsa.EncryptPKCS1v15(rand.Reader, pub, key)
 	}
 	return nil, ErrUnsupportedAlgorithm
-- 
2.43.0


From eff308f093444976132ebbcb12b619dea689feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 23/41] fix: read all chunks of constructed PKCS#7 content

---
 fullsailor/pkcs7/pkcs7.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index 80114ec..0ff1dcc 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -192,8 +192,12 @@ func parseSignedData(data []byte) (*PKCS7, error) {
 	}
 	// Compound octet string
 	if compound.IsCompound {
-		if _, err = asn1andr.Unmarshal(compound.Bytes, &content); err != nil {
-			return nil, err
+		for rest := compound.Bytes; len(rest) > 0; {
+			var part []byte
+			if rest, err = asn1andr.Unmarshal(rest, &part); err != nil {
+				return nil, err
+			}
+			content = append(content, part...)
 		}
 	} else {
 		// assuming this is tag 04
-- 
2.43.0


From 2ae5145638456d16872a3244ef538f25a37c4e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 24/41] fix: fail when the reader failed instead of trusting
 what could be read

---
 apkverifier.go | 14 +++++++++++
 faultreader.go | 65 ++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 79 insertions(+)
 create mode 100644 faultreader.go

diff --git a/apkverifier.go b/apkverifier.go
index 556e7f9..a5a0e04 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -72,6 +72,14 @@ func VerifyWithSdkVersion(path string, optionalZip *apkparser.ZipReader, minSdkV
 // inside the <minSdkVersion;maxSdkVersion> interval.
 // minSdkVersion == apilevel.V_AnyMin means it will obtain the minSdkVersion from AndroidManifest.
 func VerifyWithSdkVersionReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader, minSdkVersion, maxSdkVersion int32) (res Result, err error) {
+	faults := &faultReader{r: r}
+	r = faults
+	defer func() {
+		if err == nil {
+			err = faults.err
+		}
+	}()
+
 	if optionalZip == nil {
 		optionalZip, err = apkparser.OpenZipReader(r)
 		if err != nil {
@@ -156,6 +164,9 @@ func ExtractCerts(path string, optionalZip *apkparser.ZipReader) ([][]*x509.Cert
 
 func ExtractCertsReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader) ([][]*x509.Certificate, error) {
 	var err error
+	faults := &faultReader{r: r}
+	r = faults
+
 	if optionalZip == nil {
 		optionalZip, err = apkparser.OpenZipReader(r)
 		if err != nil {
@@ -172,6 +183,9 @@ func ExtractCertsReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader) ([][]
 	var certsv1 [][]*x509.Certificate
 	certsv1, err = extractCertsSchemeV1(optionalZip, apilevel.V_AnyMin, apilevel.V_AnyMax)
 	certs = append(certs, certsv1...)
+	if err == nil {
+		err = faults.err
+	}
 	return certs, err
 }
 
diff --git a/faultreader.go b/faultreader.go
new file mode 100644
index 0000000..53bf691
--- /dev/null
+++ b/faultreader.go
@@ -0,0 +1,65 @@
+package apkverifier
+
+import (
+	"errors"
+	"io"
+)
+
+// faultReader remembers the first error of the wrapped reader. Parts of the verification tolerate
+// files they can't read because they may be malformed, but a failing reader says nothing about
+// the file, so the result must not be trusted in that case.
+type faultReader struct {
+	r   io.ReadSeeker
+	err error
+}
+
+func (f *faultReader) record(err error) {
+	if err != nil && err != io.EOF && f.err == nil {
+		f.err = err
+	}
+}
+
+func (f *faultReader) Read(p []byte) (int, error) {
+	n, err := f.r.Read(p)
+	f.record(err)
+	return n, err
+}
+
+func (f *faultReader) Seek(offset int64, whence int) (int64, error) {
+	if whence == io.SeekStart && offset < 0 {
+		return 0, errors.New("seek to a negative position")
+	}
+	pos, err := f.r.Seek(offset, whence)
+	f.record(err)
+	return pos, err
+}
+
+// ReadAt implements io.ReaderAt even if the wrapped reader does not.
+func (f *faultReader) ReadAt(p []byte, off int64) (n int, err error) {
+	if off < 0 {
+		return 0, errors.New("read at a negative position")
+	}
+
+	if ra, ok := f.r.(io.ReaderAt); ok {
+		n, err = ra.ReadAt(p, off)
+		f.record(err)
+		return n, err
+	}
+
+	pos, err := f.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	if _, err = f.Seek(off, io.SeekStart); err != nil {
+		return 0, err
+	}
+	n, err = io.ReadFull(f.r, p)
+	if err == io.ErrUnexpectedEOF {
+		err = io.EOF
+	}
+	f.record(err)
+	if _, serr := f.Seek(pos, io.SeekStart); serr != nil && err == nil {
+		err = serr
+	}
+	return n, err
+}
-- 
2.43.0


From ce502d2bd6ace176cc3b5544cfbd096c7487a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 25/41] fix: ignore unknown digest algorithms listed in a JAR
 manifest and know SHA

---
 schemev1.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/schemev1.go b/schemev1.go
index bfe0a65..acc2bf3 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -47,6 +47,9 @@ var (
 		"sha-384": sha512.New384,
 		"sha-256": sha256.New,
 		"sha1":    sha1.New,
+
+		// Only looked up by name, on Android older than 4.3.
+		"sha": sha1.New,
 	}
 )
 
@@ -577,6 +580,10 @@ func (p *schemeV1) getDigestsToVerify(entry map[string]string, suffix string, mi
 
 		tokens := strings.Split(algs, " ")
 		for _, algo := range tokens {
+			// Android ignores algorithms it does not know.
+			if _, known := digestHashers[algo]; !known {
+				continue
+			}
 			if minSdkVersion >= 9 || (algo != "sha-384" && algo != "sha-512") {
 				if _, prs := entry[algo+suffix]; prs {
 					res = append(res, algo)
@@ -592,12 +599,17 @@ func (p *schemeV1) getDigestsToVerify(entry map[string]string, suffix string, mi
 	}
 
 	if maxSdkVersion >= 18 {
+		found := false
 		for _, algo := range digestAlgorithms {
 			if _, prs := entry[algo+suffix]; prs {
 				res = append(res, algo)
+				found = true
 				break
 			}
 		}
+		if !found {
+			return nil
+		}
 	}
 
 	return res
-- 
2.43.0


From 80d3a7c4c3f81bdbee645b99c930650275f4774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 26/41] fix: use the first signature scheme block of each kind
 like Android

---
 signingblock/signingblock.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 5579bf3..ad5f6c2 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -537,6 +537,11 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 				(bid == blockIdSchemeV3 && apilevel.SupportsSigV3(maxSdkVersion)) ||
 				(bid == blockIdSchemeV31 && apilevel.SupportsSigV31(maxSdkVersion))
 
+			// Android uses the first block of each kind.
+			if blocks[bid] != nil || res.ExtraBlocks[bid] != nil {
+				break
+			}
+
 			if isSupported {
 				blocks[bid] = block
 			}
@@ -570,7 +575,9 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
-			blocks[bid] = block
+			if blocks[bid] == nil {
+				blocks[bid] = block
+			}
 		default:
 			block := make([]byte, entryLen-4)
 			if _, err = io.ReadFull(pairs, block); err != nil {
-- 
2.43.0


From 3cdb03aa4dd3fb391364cf2ec8bec693985e7428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 27/41] fix: reject APKs stripped of the v3 signature their v1
 signature mentions

---
 schemev1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index acc2bf3..6cccaa7 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -366,7 +366,7 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 					continue
 				}
 
-				if id == 2 {
+				if id == 2 || (id == 3 && apilevel.SupportsSigV3(maxSdkVersion)) {
 					return fmt.Errorf("This apk has '%s: %s', cannot be verified using v1 scheme, downgrade attack?",
 						attrAndroidApkSigned, idList)
 				}
-- 
2.43.0


From b8c1073bd50d52e5fdfa219f7451b81e4bcec9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 28/41] fix: do not take a directory for the file a JAR
 manifest lists

---
 schemev1.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 6cccaa7..0a10428 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -458,7 +458,7 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 
 func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion int32) error {
 	for path := range p.manifest.entries {
-		if _, prs := apk.File[path]; !prs {
+		if zf, prs := apk.File[path]; !prs || isDirectory(zf) {
 			return fmt.Errorf("Manifest entry '%s' does not exists.", path)
 		}
 	}
@@ -467,8 +467,7 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 	hasAndroidManifest := false
 	hasBundleConfig := false
 	for path, zf := range apk.File {
-		// Like Android, go by the name. The directory flag in the external attributes can be set on any file.
-		if hdr := zf.ZipHeader(); hdr != nil && strings.HasSuffix(hdr.Name, "/") {
+		if isDirectory(zf) {
 			continue
 		}
 
@@ -524,6 +523,12 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 	return nil
 }
 
+// Like Android, go by the name. The directory flag in the external attributes can be set on any file.
+func isDirectory(zf *apkparser.ZipReaderFile) bool {
+	hdr := zf.ZipHeader()
+	return hdr != nil && strings.HasSuffix(hdr.Name, "/")
+}
+
 func (p *schemeV1) certChainsMatch(a, b [][]*x509.Certificate) bool {
 	if len(a) != len(b) {
 		return false
-- 
2.43.0


From 4f75c3298c63bd6f59d10fa965b50cfefacd4153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 29/41] fix: keep escaped characters when comparing certificate
 names

---
 schemev1.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/schemev1.go b/schemev1.go
index 0a10428..9885220 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -1019,6 +1019,7 @@ func (p *schemeV1) pkixCanonicalSeq(n pkix.RDNSequence) string {
 						res.WriteByte(' ')
 					case '"', '\\', ',', '+', '<', '>', ';':
 						res.WriteByte('\\')
+						fallthrough
 					default:
 						res.WriteByte(val[index])
 					}
-- 
2.43.0


From 279cfa444c45a9abc77cee1975bfa47f0a249d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 30/41] fix: compare all attributes of certificate names

---
 schemev1.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 9885220..2bd5232 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -707,14 +707,12 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 		if _, err := asn1andr.Unmarshal(info.IssuerAndSerialNumber.IssuerName.FullBytes, &issuerSeq); err != nil {
 			return nil, err
 		}
-		var issuer pkix.Name
-		issuer.FillFromRDNSequence(&issuerSeq)
-		issuerCanonical := p.pkixCanonical(&issuer)
+		issuerCanonical := p.pkixCanonicalSeq(issuerSeq)
 
 		snum := info.IssuerAndSerialNumber.SerialNumber
 		signerCertIndex := -1
 		for i, crt := range sig.cert.Certificates {
-			if snum.Cmp(crt.SerialNumber) == 0 && issuerCanonical == p.pkixCanonical(&crt.Issuer) {
+			if snum.Cmp(crt.SerialNumber) == 0 && issuerCanonical == p.pkixCanonical(crt.RawIssuer) {
 				signerCertIndex = i
 				break
 			}
@@ -827,15 +825,15 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 
 	// load cert chain if not self-signed
 	chain = []*x509.Certificate{firstVerifiedSignerCert}
-	if p.pkixCanonical(&firstVerifiedSignerCert.Issuer) == p.pkixCanonical(&firstVerifiedSignerCert.Subject) {
+	if p.pkixCanonical(firstVerifiedSignerCert.RawIssuer) == p.pkixCanonical(firstVerifiedSignerCert.RawSubject) {
 		return chain, nil
 	}
 
-	issuerCanonical := p.pkixCanonical(&firstVerifiedSignerCert.Issuer)
+	issuerCanonical := p.pkixCanonical(firstVerifiedSignerCert.RawIssuer)
 	for {
 		var issuerCert *x509.Certificate
 		for _, crt := range sig.cert.Certificates {
-			if issuerCanonical == p.pkixCanonical(&crt.Subject) {
+			if issuerCanonical == p.pkixCanonical(crt.RawSubject) {
 				issuerCert = crt
 				break
 			}
@@ -850,8 +848,8 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 			break
 		}
 
-		issuerCanonical = p.pkixCanonical(&issuerCert.Issuer)
-		if issuerCanonical == p.pkixCanonical(&issuerCert.Subject) {
+		issuerCanonical = p.pkixCanonical(issuerCert.RawIssuer)
+		if issuerCanonical == p.pkixCanonical(issuerCert.RawSubject) {
 			break
 		}
 	}
@@ -983,8 +981,13 @@ func (a byX501Canonical) Less(i, j int) bool {
 	return false
 }
 
-func (p *schemeV1) pkixCanonical(n *pkix.Name) string {
-	return p.pkixCanonicalSeq(n.ToRDNSequence())
+// Works on the encoded name, pkix.Name keeps only some of the attributes.
+func (p *schemeV1) pkixCanonical(raw []byte) string {
+	var seq pkix.RDNSequence
+	if _, err := asn1andr.Unmarshal(raw, &seq); err != nil {
+		return string(raw)
+	}
+	return p.pkixCanonicalSeq(seq)
 }
 
 func (p *schemeV1) pkixCanonicalSeq(n pkix.RDNSequence) string {
-- 
2.43.0


From 80691af3db16d90a02811ded66d0dfa267bbdb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 31/41] fix: match v1 manifest entries with the names in the
 ZIP instead of cleaned up ones

---
 schemev1.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 2bd5232..cd4c3ea 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -457,21 +457,32 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 }
 
 func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion int32) error {
+	// Like Android, go by the name in the ZIP, apk.File has the cleaned up ones.
+	files := make(map[string]*apkparser.ZipReaderFile, len(apk.File))
+	for path, zf := range apk.File {
+		if hdr := zf.ZipHeader(); hdr != nil {
+			path = hdr.Name
+		}
+		files[path] = zf
+	}
+
 	for path := range p.manifest.entries {
-		if zf, prs := apk.File[path]; !prs || isDirectory(zf) {
+		if _, prs := files[path]; !prs {
 			return fmt.Errorf("Manifest entry '%s' does not exists.", path)
 		}
 	}
 
-	required := make([]string, 0, len(apk.File))
+	required := make([]string, 0, len(files))
 	hasAndroidManifest := false
 	hasBundleConfig := false
-	for path, zf := range apk.File {
-		if isDirectory(zf) {
+	for path, zf := range files {
+		// The directory flag in the external attributes can be set on any file.
+		if strings.HasSuffix(path, "/") {
 			continue
 		}
 
-		if path != "AndroidManifest.xml" && !strings.HasPrefix(path, "META-INF/") {
+		inMetaInf := strings.HasPrefix(path, "META-INF/") && strings.HasPrefix(zf.Name, "META-INF/")
+		if path != "AndroidManifest.xml" && !inMetaInf {
 			required = append(required, path)
 		}
 
@@ -496,7 +507,7 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 		}
 
 		err := p.verifyManifestEntry(attrs, attrDigestSuffix, minSdkVersion, maxSdkVersion, func(hash []byte, hasher hash.Hash) error {
-			return p.verifyFileHash(apk.File[path], hash, hasher)
+			return p.verifyFileHash(files[path], hash, hasher)
 		})
 		if err != nil {
 			return err
@@ -523,12 +534,6 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 	return nil
 }
 
-// Like Android, go by the name. The directory flag in the external attributes can be set on any file.
-func isDirectory(zf *apkparser.ZipReaderFile) bool {
-	hdr := zf.ZipHeader()
-	return hdr != nil && strings.HasSuffix(hdr.Name, "/")
-}
-
 func (p *schemeV1) certChainsMatch(a, b [][]*x509.Certificate) bool {
 	if len(a) != len(b) {
 		return false
-- 
2.43.0


From aa4dd3935121fbf0a49fb5a09283cd46fc9d71b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:24 +0000
Subject: [PATCH 32/41] fix: do not panic on empty continuation lines in JAR
 manifests

---
 manifest.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 7f10a7a..a7f3836 100644
--- a/manifest.go
+++ b/manifest.go
@@ -187,7 +187,9 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 			continue
 		case ' ':
 			if ctx.consecutiveLineBreaks == 1 {
-				buf = append(buf, ctx.data[mark:last]...)
+				if last > mark {
+					buf = append(buf, ctx.data[mark:last]...)
+				}
 				mark = ctx.pos
 				ctx.consecutiveLineBreaks = 0
 				continue
-- 
2.43.0


From 71efb80cd84d7d7cd7a48e303202888ba7c5044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 33/41] fix: report an error when there are no signers to
 extract certificates of

---
 signingblock/signingblock.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index ad5f6c2..10642f6 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -279,7 +279,11 @@ func ExtractCertsReader(r io.ReadSeeker, minSdkVersion, maxSdkVersion int32) (ce
 	}
 
 	s.extractCerts(scheme, block, res)
-	return res.Certs, res.GetLastError()
+	err = res.GetLastError()
+	if err == nil && len(res.Certs) == 0 {
+		err = errors.New("the signature scheme block contains no signers")
+	}
+	return res.Certs, err
 }
 
 func newSigningBlock(r io.ReadSeeker) (sblock *signingBlock, magic uint32, err error) {
-- 
2.43.0


From 1da8eb49098a3e9aaf376c666a1545abf2ccf2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:30 +0000
Subject: [PATCH 34/41] fix: do not fall back to the v2 signature because the
 reader failed

---
 apkverifier.go                                |  9 +++---
 .../faultreader/faultreader.go                | 28 +++++++++++++------
 signingblock/signingblock.go                  |  9 ++++++
 3 files changed, 33 insertions(+), 13 deletions(-)
 rename faultreader.go => internal/faultreader/faultreader.go (63%)

diff --git a/apkverifier.go b/apkverifier.go
index a5a0e04..ec65a0e 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -14,6 +14,7 @@ import (
 
 	"github.com/avast/apkparser"
 	"github.com/avast/apkverifier/apilevel"
+	"github.com/avast/apkverifier/internal/faultreader"
 	"github.com/avast/apkverifier/signingblock"
 )
 
@@ -72,11 +73,11 @@ func VerifyWithSdkVersion(path string, optionalZip *apkparser.ZipReader, minSdkV
 // inside the <minSdkVersion;maxSdkVersion> interval.
 // minSdkVersion == apilevel.V_AnyMin means it will obtain the minSdkVersion from AndroidManifest.
 func VerifyWithSdkVersionReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader, minSdkVersion, maxSdkVersion int32) (res Result, err error) {
-	faults := &faultReader{r: r}
+	faults := faultreader.New(r)
 	r = faults
 	defer func() {
 		if err == nil {
-			err = faults.err
+			err = faults.Err()
 		}
 	}()
 
@@ -164,7 +165,7 @@ func ExtractCerts(path string, optionalZip *apkparser.ZipReader) ([][]*x509.Cert
 
 func ExtractCertsReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader) ([][]*x509.Certificate, error) {
 	var err error
-	faults := &faultReader{r: r}
+	faults := faultreader.New(r)
 	r = faults
 
 	if optionalZip == nil {
@@ -184,7 +185,7 @@ func ExtractCertsReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader) ([][]
 	certsv1, err = extractCertsSchemeV1(optionalZip, apilevel.V_AnyMin, apilevel.V_AnyMax)
 	certs = append(certs, certsv1...)
 	if err == nil {
-		err = faults.err
+		err = faults.Err()
 	}
 	return certs, err
 }
diff --git a/faultreader.go b/internal/faultreader/faultreader.go
similarity index 63%
rename from faultreader.go
rename to internal/faultreader/faultreader.go
index 53bf691..da4b87a 100644
--- a/faultreader.go
+++ b/internal/faultreader/faultreader.go
@@ -1,31 +1,42 @@
-package apkverifier
+// Package faultreader notices failing readers.
+package faultreader
 
 import (
 	"errors"
 	"io"
 )
 
-// faultReader remembers the first error of the wrapped reader. Parts of the verification tolerate
+// Reader remembers the first error of the wrapped reader. Parts of the verification tolerate
 // files they can't read because they may be malformed, but a failing reader says nothing about
 // the file, so the result must not be trusted in that case.
-type faultReader struct {
+type Reader struct {
 	r   io.ReadSeeker
 	err error
 }
 
-func (f *faultReader) record(err error) {
+// New wraps r.
+func New(r io.ReadSeeker) *Reader {
+	return &Reader{r: r}
+}
+
+// Err returns the first error of the wrapped reader.
+func (f *Reader) Err() error {
+	return f.err
+}
+
+func (f *Reader) record(err error) {
 	if err != nil && err != io.EOF && f.err == nil {
 		f.err = err
 	}
 }
 
-func (f *faultReader) Read(p []byte) (int, error) {
+func (f *Reader) Read(p []byte) (int, error) {
 	n, err := f.r.Read(p)
 	f.record(err)
 	return n, err
 }
 
-func (f *faultReader) Seek(offset int64, whence int) (int64, error) {
+func (f *Reader) Seek(offset int64, whence int) (int64, error) {
 	if whence == io.SeekStart && offset < 0 {
 		return 0, errors.New("seek to a negative position")
 	}
@@ -35,7 +46,7 @@ func (f *faultReader) Seek(offset int64, whence int) (int64, error) {
 }
 
 // ReadAt implements io.ReaderAt even if the wrapped reader does not.
-func (f *faultReader) ReadAt(p []byte, off int64) (n int, err error) {
+func (f *Reader) ReadAt(p []byte, off int64) (n int, err error) {
 	if off < 0 {
 		return 0, errors.New("read at a negative position")
 	}
@@ -53,11 +64,10 @@ func (f *faultReader) ReadAt(p []byte, off int64) (n int, err error) {
 	if _, err = f.Seek(off, io.SeekStart); err != nil {
 		return 0, err
 	}
-	n, err = io.ReadFull(f.r, p)
+	n, err = io.ReadFull(f, p)
 	if err == io.ErrUnexpectedEOF {
 		err = io.EOF
 	}
-	f.record(err)
 	if _, serr := f.Seek(pos, io.SeekStart); serr != nil && err == nil {
 		err = serr
 	}
diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 10642f6..e59431d 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -15,6 +15,7 @@ import (
 	"github.com/avast/apkparser"
 
 	"github.com/avast/apkverifier/apilevel"
+	"github.com/avast/apkverifier/internal/faultreader"
 )
 
 // https://source.android.com/security/apksigning/v2.html
@@ -161,6 +162,14 @@ func VerifySigningBlock(path string, minSdkVersion, maxSdkVersion int32) (res *V
 }
 
 func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersion int32, optionalZip *apkparser.ZipReader) (res *VerificationResult, magic uint32, err error) {
+	faults := faultreader.New(r)
+	r = faults
+	defer func() {
+		if err == nil {
+			err = faults.Err()
+		}
+	}()
+
 	if optionalZip == nil {
 		optionalZip, err = apkparser.OpenZipReader(r)
 		if err != nil {
-- 
2.43.0


From a08907e3d607f7df3625e0e080e0db83875ad16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 35/41] fix: do not take an empty read for the end of the file

---
 internal/faultreader/faultreader.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/faultreader/faultreader.go b/internal/faultreader/faultreader.go
index da4b87a..565da6a 100644
--- a/internal/faultreader/faultreader.go
+++ b/internal/faultreader/faultreader.go
@@ -6,6 +6,8 @@ import (
 	"io"
 )
 
+const maxEmptyReads = 100
+
 // Reader remembers the first error of the wrapped reader. Parts of the verification tolerate
 // files they can't read because they may be malformed, but a failing reader says nothing about
 // the file, so the result must not be trusted in that case.
@@ -30,10 +32,17 @@ func (f *Reader) record(err error) {
 	}
 }
 
+// Read never returns no data without an error, the ZIP reader takes that for the end of the file.
 func (f *Reader) Read(p []byte) (int, error) {
-	n, err := f.r.Read(p)
-	f.record(err)
-	return n, err
+	for i := 0; i < maxEmptyReads; i++ {
+		n, err := f.r.Read(p)
+		f.record(err)
+		if n != 0 || err != nil || len(p) == 0 {
+			return n, err
+		}
+	}
+	f.record(io.ErrNoProgress)
+	return 0, io.ErrNoProgress
 }
 
 func (f *Reader) Seek(offset int64, whence int) (int64, error) {
-- 
2.43.0


From 651a17e63c637a3c6c8ea4a5743ecd245c0e0bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 36/41] fix: read a negative RSA modulus that starts with 0xff
 as its own bytes

The modulus was rebuilt from the bytes of its complement, where the leading
zeros, the 0xff bytes of the encoding, are gone: the key had a modulus eight
bits short.
---
 internal/x509andr/x509.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index 5452d76..f9033c6 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -1008,13 +1008,9 @@ func parsePublicKey(algo PublicKeyAlgorithm, keyData *publicKeyInfo, needsReenco
 			if needsReencode != nil {
 				*needsReencode = true
 			}
-			p.N.Neg(p.N)
-			p.N.Sub(p.N, big.NewInt(1))
-			bytes := p.N.Bytes()
-			for i := range bytes {
-				bytes[i] = ^bytes[i]
-			}
-			p.N.SetBytes(bytes)
+			// The unsigned reading of the same bytes, however many of the leading ones are 0xff.
+			encodedLen := new(big.Int).Not(p.N).BitLen()/8 + 1
+			p.N.Add(p.N, new(big.Int).Lsh(big.NewInt(1), uint(encodedLen)*8))
 		}
 		if p.E <= 0 {
 			return nil, errors.New("x509: RSA public exponent is not a positive number")
-- 
2.43.0


From e6a4f975648b99374c8da4f94eaa3d66fd09c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 37/41] fix: parse certificates with critical constraints on
 other names than DNS ones

Such a certificate was refused as unparsable, and the APK with it, though
Android parses it. The extension is recorded as not handled instead.
---
 internal/x509andr/x509.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index f9033c6..ee5fb9b 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -1256,26 +1256,22 @@ func parseCertificate(in *certificate) (*Certificate, error) {
 					return nil, errors.New("x509: trailing data after X.509 NameConstraints")
 				}
 
-				getDNSNames := func(subtrees []generalSubtree, isCritical bool) (dnsNames []string, err error) {
+				// Constraints on other kinds of names are not processed, which is
+				// recorded if they are critical.
+				getDNSNames := func(subtrees []generalSubtree) (dnsNames []string) {
 					for _, subtree := range subtrees {
 						if len(subtree.Name) == 0 {
-							if isCritical {
-								return nil, UnhandledCriticalExtension{}
-							}
+							unhandled = true
 							continue
 						}
 						dnsNames = append(dnsNames, subtree.Name)
 					}
 
-					return dnsNames, nil
+					return dnsNames
 				}
 
-				if out.PermittedDNSDomains, err = getDNSNames(constraints.Permitted, e.Critical); err != nil {
-					return out, err
-				}
-				if out.ExcludedDNSDomains, err = getDNSNames(constraints.Excluded, e.Critical); err != nil {
-					return out, err
-				}
+				out.PermittedDNSDomains = getDNSNames(constraints.Permitted)
+				out.ExcludedDNSDomains = getDNSNames(constraints.Excluded)
 				out.PermittedDNSDomainsCritical = e.Critical
 
 			case 31:
-- 
2.43.0


From 74b50773ad95b6616034086f3bcb98ba674c3043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 38/41] fix: name the RSA-PSS algorithm of certificates whose
 hash parameters are absent

RFC 8017 has NULL and absent parameters mean the same.
---
 internal/x509andr/x509.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index ee5fb9b..167cfde 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -429,10 +429,15 @@ func getSignatureAlgorithmFromAI(ai pkix.AlgorithmIdentifier) SignatureAlgorithm
 	// https://tools.ietf.org/html/rfc3447#section-8.1), that the
 	// salt length matches the hash length, and that the trailer
 	// field has the default value.
-	if !bytes.Equal(params.Hash.Parameters.FullBytes, nullBytes) ||
+	// The parameters of the hash functions may be NULL or absent
+	// (https://tools.ietf.org/html/rfc8017#appendix-A.2.1).
+	noParameters := func(hash pkix.AlgorithmIdentifier) bool {
+		return len(hash.Parameters.FullBytes) == 0 || bytes.Equal(hash.Parameters.FullBytes, nullBytes)
+	}
+	if !noParameters(params.Hash) ||
 		!params.MGF.Algorithm.Equal(oidMGF1) ||
 		!mgf1HashFunc.Algorithm.Equal(params.Hash.Algorithm) ||
-		!bytes.Equal(mgf1HashFunc.Parameters.FullBytes, nullBytes) ||
+		!noParameters(mgf1HashFunc) ||
 		params.TrailerField != 1 {
 		return UnknownSignatureAlgorithm
 	}
-- 
2.43.0


From cd6a713c9883ded8ee8fbe6c5a85c13f61e2c838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:24 +0000
Subject: [PATCH 39/41] fix: pkcs7: do not write padding over what follows the
 content in the caller's memory

---
 fullsailor/pkcs7/pkcs7.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index 0ff1dcc..2b6f0f9 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -511,7 +511,8 @@ func pad(data []byte, blocklen int) ([]byte, error) {
 		padlen = blocklen
 	}
 	pad := bytes.Repeat([]byte{byte(padlen)}, padlen)
-	return append(data, pad...), nil
+	// a copy: the capacity of data may reach over memory of the caller
+	return append(data[:len(data):len(data)], pad...), nil
 }
 
 func unpad(data []byte, blocklen int) ([]byte, error) {
-- 
2.43.0


From 24d00c41745f2ed3c4e99c2ac900ea4045bc3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:07 +0000
Subject: [PATCH 40/41] fix: do not recurse endlessly when naming unknown
 lineage capabilities

---
 signingblock/schemev3lineage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/schemev3lineage.go b/signingblock/schemev3lineage.go
index 1edbb1e..708c22e 100644
--- a/signingblock/schemev3lineage.go
+++ b/signingblock/schemev3lineage.go
@@ -50,7 +50,7 @@ func (c LineageCertCaps) String() string {
 		case CapAuth:
 			values = append(values, "Auth")
 		default:
-			values = append(values, fmt.Sprintf("0x%x", mask))
+			values = append(values, fmt.Sprintf("0x%x", uint32(mask)))
 		}
 	}
 
-- 
2.43.0


From 1610205e817fc18901d682f01ff569ed9c098cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:25 +0000
Subject: [PATCH 41/41] fix: RSA-PSS with SHA-256 is supported since Android 7
 like the others

---
 signingblock/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/signer.go b/signingblock/signer.go
index 200d252..a742755 100644
--- a/signingblock/signer.go
+++ b/signingblock/signer.go
@@ -107,7 +107,7 @@ func (algo SignatureAlgorithm) getDigestType() contentDigest {
 
 func (algo SignatureAlgorithm) getMinSdkVersion() int32 {
 	switch algo {
-	case SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
+	case SigRsaPssWithSha256, SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
 		SigEcdsaWithSha256, SigEcdsaWithSha512, SigDsaWithSha256:
 		return apilevel.V7_0_Nougat
 	case SigVerityRsaPkcs1V15WithSha256, SigVerityEcdsaWithSha256, SigVerityDsaWithSha256:
-- 
2.43.0

