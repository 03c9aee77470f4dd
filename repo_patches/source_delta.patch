From 3d0fb8b1f501f7560f969ee59bf244889e2284ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 01/30] fix: reject mismatched key types and malformed
 DSA/ECDSA signatures instead of panicking

---
 signingblock/utils.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/signingblock/utils.go b/signingblock/utils.go
index 6be7bd1..09ad9c9 100644
--- a/signingblock/utils.go
+++ b/signingblock/utils.go
@@ -37,6 +37,13 @@ func getLenghtPrefixedSlice(r *bytes.Buffer) (*bytes.Buffer, error) {
 }
 
 func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataBytes, signature []byte) error {
+	switch algo {
+	case SigRsaPssWithSha256, SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512, SigVerityRsaPkcs1V15WithSha256:
+		if _, ok := publicKey.(*rsa.PublicKey); !ok {
+			return fmt.Errorf("invalid public key type %T for algorithm %s", publicKey, algo.String())
+		}
+	}
+
 	switch algo {
 	case SigRsaPssWithSha256:
 		hashed := sha256.Sum256(signedDataBytes)
@@ -59,6 +66,9 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 		if _, err := asn1.Unmarshal(signature, &params); err != nil {
 			return fmt.Errorf("failed to unmarshal ECDSA signature: %s", err.Error())
 		}
+		if len(params) < 2 {
+			return fmt.Errorf("invalid signature, expected two integers, got %d", len(params))
+		}
 
 		var hashed []byte
 		switch algo {
@@ -73,13 +83,22 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 		}
 
 		if algo == SigDsaWithSha256 || algo == SigVerityDsaWithSha256 {
-			k := publicKey.(*dsa.PublicKey)
-			hashed = hashed[:k.Q.BitLen()/8]
+			k, ok := publicKey.(*dsa.PublicKey)
+			if !ok {
+				return fmt.Errorf("invalid public key type %T for algorithm %s", publicKey, algo.String())
+			}
+			if qlen := k.Q.BitLen() / 8; qlen < len(hashed) {
+				hashed = hashed[:qlen]
+			}
 			if !dsa.Verify(k, hashed, params[0], params[1]) {
 				return errors.New("DSA verification failed.")
 			}
 		} else {
-			if !ecdsa.Verify(publicKey.(*ecdsa.PublicKey), hashed, params[0], params[1]) {
+			k, ok := publicKey.(*ecdsa.PublicKey)
+			if !ok {
+				return fmt.Errorf("invalid public key type %T for algorithm %s", publicKey, algo.String())
+			}
+			if !ecdsa.Verify(k, hashed, params[0], params[1]) {
 				return errors.New("ECDSA verification failed.")
 			}
 		}
-- 
2.43.0


From 355543c78e59227ef5f511824a691a3237c17733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 02/30] fix: compare the unsigned v3 maxSdkVersion with the
 signed one

---
 signingblock/schemev3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signingblock/schemev3.go b/signingblock/schemev3.go
index f53f004..fd86eb0 100644
--- a/signingblock/schemev3.go
+++ b/signingblock/schemev3.go
@@ -195,8 +195,8 @@ func (s *schemeV3) verifySigner(signerBlock *bytes.Buffer, contentDigests map[co
 	if parsedMinSdkVersion != signedMinSdkVersion {
 		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
 	}
-	if parsedMaxSdkVersion != parsedMaxSdkVersion {
-		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
+	if parsedMaxSdkVersion != signedMaxSdkVersion {
+		result.addError("mismatch between parsed and signed maxSdkVersion: %d != %d", parsedMaxSdkVersion, signedMaxSdkVersion)
 	}
 
 	// Parse certificates
-- 
2.43.0


From 9514faf16c3f5d59ced76276a03ecbf16a41e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 03/30] fix: verify the content digests listed by v3.1 signers

---
 signingblock/schemev31.go    |  5 +++++
 signingblock/signingblock.go | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/signingblock/schemev31.go b/signingblock/schemev31.go
index dd601e9..af4f2e5 100644
--- a/signingblock/schemev31.go
+++ b/signingblock/schemev31.go
@@ -9,11 +9,16 @@ import (
 type schemeV31 struct {
 	backendV3  schemeV3
 	backendV31 schemeV3
+
+	// Digests listed by the v3.1 signers. The digests returned to the caller are those of the v3 block,
+	// but both have to match the APK's contents.
+	v31ContentDigests map[contentDigest][]byte
 }
 
 func (s *schemeV31) parseSigners(block *bytes.Buffer, contentDigests map[contentDigest][]byte, result *VerificationResult) {
 	v31ContentDigest := make(map[contentDigest][]byte)
 	s.backendV31.parseSigners(block, v31ContentDigest, result)
+	s.v31ContentDigests = v31ContentDigest
 
 	s.backendV3.rotationMinSdkVersion = math.MaxInt32
 	for _, signer := range s.backendV31.signers {
diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 6054709..a7d6d05 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -579,6 +579,18 @@ func (s *signingBlock) verify(scheme signatureBlockScheme, block []byte, minSdkV
 		return contentDigests
 	}
 
+	if v31, ok := scheme.(*schemeV31); ok {
+		remaining := make(map[contentDigest][]byte)
+		for algo, digest := range v31.v31ContentDigests {
+			if verified, prs := contentDigests[algo]; !prs || !bytes.Equal(verified, digest) {
+				remaining[algo] = digest
+			}
+		}
+		if len(remaining) != 0 && !s.verifyIntegrity(remaining, res) {
+			return contentDigests
+		}
+	}
+
 	scheme.finalizeResult(minSdkVersion, maxSdkVersion, res)
 	return contentDigests
 }
-- 
2.43.0


From 2ac86c03c74c08646a1a0ea2efb340d0ee714998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 04/30] fix: accept signed attributes with every digest
 algorithm of the v1 algorithm table

---
 schemev1.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/schemev1.go b/schemev1.go
index a9eb65f..8c34838 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -59,8 +59,12 @@ const (
 var (
 	oidAttributeContentType   = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}
 	oidAttributeMessageDigest = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}
+	oidDigestAlgorithmMD5     = asn1.ObjectIdentifier{1, 2, 840, 113549, 2, 5}
 	oidDigestAlgorithmSHA1    = asn1.ObjectIdentifier{1, 3, 14, 3, 2, 26}
+	oidDigestAlgorithmSHA224  = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 4}
 	oidDigestAlgorithmSHA256  = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 1}
+	oidDigestAlgorithmSHA384  = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 2}
+	oidDigestAlgorithmSHA512  = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 3}
 )
 
 var oidToAlgo = map[string]x509.SignatureAlgorithm{
@@ -635,10 +639,18 @@ func (p *schemeV1) verifyFileHash(f *apkparser.ZipReaderFile, hash []byte, hashe
 
 func (p *schemeV1) getHashForOID(oid asn1.ObjectIdentifier) (crypto.Hash, error) {
 	switch {
+	case oid.Equal(oidDigestAlgorithmMD5):
+		return crypto.MD5, nil
 	case oid.Equal(oidDigestAlgorithmSHA1):
 		return crypto.SHA1, nil
+	case oid.Equal(oidDigestAlgorithmSHA224):
+		return crypto.SHA224, nil
 	case oid.Equal(oidDigestAlgorithmSHA256):
 		return crypto.SHA256, nil
+	case oid.Equal(oidDigestAlgorithmSHA384):
+		return crypto.SHA384, nil
+	case oid.Equal(oidDigestAlgorithmSHA512):
+		return crypto.SHA512, nil
 	}
 	return crypto.Hash(0), fmt.Errorf("unsupported hash algorithm oid %s", oid.String())
 }
-- 
2.43.0


From 8565c11d94375be1d9b262e2abc847d97fdeca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 05/30] fix: verify the v1 digest of AndroidManifest.xml

---
 schemev1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index 8c34838..57861ce 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -457,7 +457,7 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 			continue
 		}
 
-		if !zf.IsDir && path != "AndroidManifest.xml" && !strings.HasPrefix(path, "META-INF/") {
+		if !zf.IsDir && !strings.HasPrefix(path, "META-INF/") {
 			required = append(required, path)
 		}
 
-- 
2.43.0


From f6112892ab714fc88640843187ad9708431acda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 06/30] fix: match v1 manifest entries with the names stored in
 the ZIP, treat only names ending with a slash as directories

---
 schemev1.go | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 57861ce..78eb5d9 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -188,27 +188,28 @@ func newSchemeV1(apk *apkparser.ZipReader) (*schemeV1, error) {
 	var signatureBlocks []*apkparser.ZipReaderFile
 	signatureFiles := map[string]*apkparser.ZipReaderFile{}
 	for _, f := range apk.FilesOrdered {
-		if !strings.HasPrefix(f.Name, prefix) {
+		name := zipEntryName(f)
+		if !strings.HasPrefix(name, prefix) {
 			continue
 		}
 
 		switch {
-		case f.Name == "META-INF/MANIFEST.MF":
+		case name == "META-INF/MANIFEST.MF":
 			if err := scheme.addManifest(f); err != nil {
 				return nil, fmt.Errorf("failed to parse main manifest: %s", err.Error())
 			}
-		case strings.HasSuffix(f.Name, ".RSA") || strings.HasSuffix(f.Name, ".DSA") || strings.HasSuffix(f.Name, ".EC"):
+		case strings.HasSuffix(name, ".RSA") || strings.HasSuffix(name, ".DSA") || strings.HasSuffix(name, ".EC"):
 			signatureBlocks = append(signatureBlocks, f)
-		case strings.HasSuffix(f.Name, ".SF"):
-			if _, prs := signatureFiles[f.Name]; !prs {
-				signatureFiles[f.Name] = f
+		case strings.HasSuffix(name, ".SF"):
+			if _, prs := signatureFiles[name]; !prs {
+				signatureFiles[name] = f
 			}
 		}
 	}
 
 	var errors []error
 	for _, blockFile := range signatureBlocks {
-		name := blockFile.Name
+		name := zipEntryName(blockFile)
 		dot := strings.LastIndexByte(name, '.')
 		sfname := name[:dot] + ".SF"
 
@@ -243,6 +244,14 @@ func newSchemeV1(apk *apkparser.ZipReader) (*schemeV1, error) {
 	return &scheme, nil
 }
 
+// The name as it is stored in the ZIP, f.Name is already cleaned ("a//b" and "x/../a/b" become "a/b", "a/" becomes "a").
+func zipEntryName(f *apkparser.ZipReaderFile) string {
+	if header := f.ZipHeader(); header != nil {
+		return header.Name
+	}
+	return f.Name
+}
+
 func (p *schemeV1) addManifest(f *apkparser.ZipReaderFile) (err error) {
 	if p.manifest != nil {
 		return fmt.Errorf("Manifest already parsed!")
@@ -443,21 +452,27 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 }
 
 func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion int32) error {
+	files := make(map[string]*apkparser.ZipReaderFile, len(apk.File))
+	for _, zf := range apk.FilesOrdered {
+		files[zipEntryName(zf)] = zf
+	}
+
 	for path := range p.manifest.entries {
-		if _, prs := apk.File[path]; !prs {
+		if _, prs := files[path]; !prs {
 			return fmt.Errorf("Manifest entry '%s' does not exists.", path)
 		}
 	}
 
-	required := make([]string, 0, len(apk.File))
+	required := make([]string, 0, len(files))
 	hasAndroidManifest := false
 	hasBundleConfig := false
-	for path, zf := range apk.File {
-		if zf.IsDir {
+	for path := range files {
+		// Android goes by the name only, the attributes which zf.IsDir considers, too, are not signed.
+		if strings.HasSuffix(path, "/") {
 			continue
 		}
 
-		if !zf.IsDir && !strings.HasPrefix(path, "META-INF/") {
+		if !strings.HasPrefix(path, "META-INF/") {
 			required = append(required, path)
 		}
 
@@ -480,7 +495,7 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 		}
 
 		err := p.verifyManifestEntry(attrs, attrDigestSuffix, minSdkVersion, maxSdkVersion, func(hash []byte, hasher hash.Hash) error {
-			return p.verifyFileHash(apk.File[path], hash, hasher)
+			return p.verifyFileHash(files[path], hash, hasher)
 		})
 		if err != nil {
 			return err
-- 
2.43.0


From f6d205b35e2d7960284890e8bcbbe4248faed43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 07/30] fix: do not mix up v1 signatures of the same base name
 in different META-INF directories

---
 schemev1.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 78eb5d9..c813c84 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -19,7 +19,6 @@ import (
 	"io"
 	"io/ioutil"
 	"math/big"
-	"path/filepath"
 	"sort"
 	"strconv"
 	"strings"
@@ -310,9 +309,8 @@ func (p *schemeV1) addSignatureBlock(pathUpper string, f *apkparser.ZipReaderFil
 }
 
 func (p *schemeV1) signaturePrefix(pathUpper string) string {
-	fn := filepath.Base(pathUpper)
-	idx := strings.LastIndexByte(fn, '.')
-	return fn[:idx]
+	idx := strings.LastIndexByte(pathUpper, '.')
+	return pathUpper[:idx]
 }
 
 func (p *schemeV1) prepForVerification() error {
-- 
2.43.0


From 78c6121c800e50e2972e6b9d94e110422ba72e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 08/30] fix: report unknown v1 algorithms and mismatched DSA
 keys as errors instead of panicking

---
 schemev1.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index c813c84..0dfbb79 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -719,7 +719,7 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 		dea := info.DigestEncryptionAlgorithm.Algorithm.String()
 		algo, prs := oidToAlgo[fmt.Sprintf("%s %s", da, dea)]
 		if !prs {
-			panic(fmt.Sprintf("Unknown digest algorithm: '%s %s'", da, dea))
+			return chain, fmt.Errorf("Unknown digest algorithm: '%s %s'", da, dea)
 		}
 
 		var signedData []byte
@@ -886,7 +886,10 @@ func (p *schemeV1) checkSignature(cert *x509.Certificate, algo x509.SignatureAlg
 		hasher.Write(signed)
 		hash := hasher.Sum(nil)
 
-		pub := cert.PublicKey.(*dsa.PublicKey)
+		pub, ok := cert.PublicKey.(*dsa.PublicKey)
+		if !ok {
+			return fmt.Errorf("Unexpected public key type (%T)!", cert.PublicKey)
+		}
 		reqLen := pub.Q.BitLen() / 8
 		if reqLen > len(hash) {
 			reqLen = len(hash)
-- 
2.43.0


From 68cae9cd9d1b0680740de7f0e2cc467b1dc52553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 09/30] fix: do not drop v1 signers with a damaged signature
 file or wrong manifest digests silently

---
 schemev1.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 0dfbb79..14645b5 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -206,7 +206,6 @@ func newSchemeV1(apk *apkparser.ZipReader) (*schemeV1, error) {
 		}
 	}
 
-	var errors []error
 	for _, blockFile := range signatureBlocks {
 		name := zipEntryName(blockFile)
 		dot := strings.LastIndexByte(name, '.')
@@ -219,14 +218,12 @@ func newSchemeV1(apk *apkparser.ZipReader) (*schemeV1, error) {
 
 		if err := scheme.addSignatureBlock(name, blockFile); err != nil {
 			// Behavior changed in Android 7.0 - badly formed signature blocks are no longer ignored
-			// errors = append(errors, fmt.Errorf("%s: %s", name, err.Error()))
-			// continue
 			return nil, fmt.Errorf("%s: %s", name, err.Error())
 		}
 
+		// Nor can a signer get lost because its signature file was damaged
 		if err := scheme.addSignatureFile(sfname, sf); err != nil {
-			errors = append(errors, fmt.Errorf("%s: %s", name, err.Error()))
-			continue
+			return nil, fmt.Errorf("%s: %s", name, err.Error())
 		}
 
 		// The same signatureFile can't be used by another signature block
@@ -234,11 +231,7 @@ func newSchemeV1(apk *apkparser.ZipReader) (*schemeV1, error) {
 	}
 
 	if err := scheme.prepForVerification(); err != nil {
-		if len(errors) == 0 {
-			return nil, fmt.Errorf("Can't verify: %s", err.Error())
-		} else {
-			return nil, fmt.Errorf("Can't verify: %s %v", err.Error(), errors)
-		}
+		return nil, fmt.Errorf("Can't verify: %s", err.Error())
 	}
 	return &scheme, nil
 }
@@ -427,9 +420,11 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 			}
 		}
 
-		if err == nil {
-			validSignatures[sigName] = sig
+		if err != nil {
+			signatureErrors = append(signatureErrors, fmt.Errorf("%s: %s", sig.manifestFilename, err))
+			continue
 		}
+		validSignatures[sigName] = sig
 	}
 
 	p.sigs = validSignatures
-- 
2.43.0


From 8a93b0b9d14992e58b1ec0540c5ad73421875668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 10/30] fix: detect v3 signatures stripped from v1 signed APKs

---
 schemev1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index 14645b5..20ae02a 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -352,7 +352,7 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 					continue
 				}
 
-				if id == 2 {
+				if id == 2 || (id == 3 && apilevel.SupportsSigV3(maxSdkVersion)) {
 					return fmt.Errorf("This apk has '%s: %s', cannot be verified using v1 scheme, downgrade attack?",
 						attrAndroidApkSigned, idList)
 				}
-- 
2.43.0


From 3de7de85332d628d4b8aba1a7080705b124fb623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 11/30] fix: report v1 signers in the order of the ZIP

---
 schemev1.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 20ae02a..250e8f5 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -132,6 +132,7 @@ type schemeV1Signature struct {
 
 type schemeV1 struct {
 	sigs     map[string]*schemeV1Signature
+	sigOrder []string // keys of sigs, in the order of the ZIP
 	manifest *manifest
 	hashers  map[string]hash.Hash
 	chain    [][]*x509.Certificate
@@ -161,7 +162,8 @@ func extractCertsSchemeV1(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion
 	}
 
 	var signatureErrors []error
-	for _, sig := range scheme.sigs {
+	for _, sigName := range scheme.sigOrder {
+		sig := scheme.sigs[sigName]
 		sig.chain, err = scheme.verifySignature(sig, minSdkVersion, maxSdkVersion)
 		if sig.chain != nil {
 			scheme.chain = append(scheme.chain, sig.chain)
@@ -226,6 +228,8 @@ func newSchemeV1(apk *apkparser.ZipReader) (*schemeV1, error) {
 			return nil, fmt.Errorf("%s: %s", name, err.Error())
 		}
 
+		scheme.sigOrder = append(scheme.sigOrder, scheme.signaturePrefix(name))
+
 		// The same signatureFile can't be used by another signature block
 		delete(signatureFiles, sfname)
 	}
@@ -328,7 +332,8 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 	var err error
 	validSignatures := map[string]*schemeV1Signature{}
 	var signatureErrors []error
-	for sigName, sig := range p.sigs {
+	for _, sigName := range p.sigOrder {
+		sig := p.sigs[sigName]
 		sig.chain, err = p.verifySignature(sig, minSdkVersion, maxSdkVersion)
 		if sig.chain != nil {
 			p.chain = append(p.chain, sig.chain)
@@ -446,8 +451,13 @@ func (p *schemeV1) verify(apk *apkparser.ZipReader, hasValidSigningBlock bool, m
 
 func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, maxSdkVersion int32) error {
 	files := make(map[string]*apkparser.ZipReaderFile, len(apk.File))
+	paths := make([]string, 0, len(apk.File))
 	for _, zf := range apk.FilesOrdered {
-		files[zipEntryName(zf)] = zf
+		path := zipEntryName(zf)
+		if _, prs := files[path]; !prs {
+			files[path] = zf
+			paths = append(paths, path)
+		}
 	}
 
 	for path := range p.manifest.entries {
@@ -459,7 +469,7 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 	required := make([]string, 0, len(files))
 	hasAndroidManifest := false
 	hasBundleConfig := false
-	for path := range files {
+	for _, path := range paths {
 		// Android goes by the name only, the attributes which zf.IsDir considers, too, are not signed.
 		if strings.HasSuffix(path, "/") {
 			continue
@@ -495,7 +505,11 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 		}
 
 		var certChains [][]*x509.Certificate
-		for _, sig := range p.sigs {
+		for _, sigName := range p.sigOrder {
+			sig := p.sigs[sigName]
+			if sig == nil {
+				continue // not valid
+			}
 			if _, prs := sig.signatureManifest.entries[path]; prs {
 				certChains = append(certChains, sig.chain)
 			}
-- 
2.43.0


From 6f957ceaa8dfc040d66b6780476365895c876fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 12/30] fix: do not read past the end of a v1 manifest that
 ends with a colon

---
 manifest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 60c0dc7..933516f 100644
--- a/manifest.go
+++ b/manifest.go
@@ -138,7 +138,7 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 		if ctx.data[ctx.pos] == ':' {
 			name = string(ctx.data[mark:ctx.pos])
 
-			if ctx.pos+1 > len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
+			if ctx.pos+1 >= len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
 				err = fmt.Errorf("Invalid header structure '%s'", name)
 				return
 			}
-- 
2.43.0


From 5dd2e15f7876451b1f4f2412487fd3ebc2665eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 13/30] fix: do not report signers of an invalid v3 block after
 falling back to v2

---
 signingblock/signingblock.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index a7d6d05..7ef40cc 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -183,6 +183,9 @@ func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersi
 			res.Warnings = append(res.Warnings, fmt.Sprintf("schemeV3: %s", e.Error()))
 		}
 		res.Errors = nil
+		// These belong to the signers that did not verify
+		res.Certs = nil
+		res.SigningLineage = nil
 		contentDigests = s.pickAndVerify(blocks, minSdkVersion, maxSdkVersion, res)
 	}
 
-- 
2.43.0


From 07fd2babad33ff420ea3f91c393592a1954be1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 14/30] fix: accept an empty last pair in the signing block

---
 signingblock/signingblock.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 7ef40cc..c0c26e0 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -497,7 +497,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 		switch bid := BlockId(id); bid {
 		case blockIdSchemeV2, blockIdSchemeV3, blockIdSchemeV31:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 
@@ -520,7 +520,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			// for verity signature verification.
 		case blockIdFrosting:
 			frostingBlock := make([]byte, entryLen-4)
-			if _, err = pairs.Read(frostingBlock); err != nil {
+			if _, err = io.ReadFull(pairs, frostingBlock); err != nil {
 				return
 			}
 
@@ -535,13 +535,13 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			}
 		case blockIdSourceStampV2:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			blocks[bid] = block
 		default:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			if res.ExtraBlocks == nil {
-- 
2.43.0


From bc56d4491de08a30ceb20c60d7c653cb6c521609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 15/30] fix: default the target SDK version to the minimum SDK
 version

---
 apkverifier.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apkverifier.go b/apkverifier.go
index 556e7f9..6680674 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -206,7 +206,9 @@ func (e *sandboxVersionEncoder) EncodeToken(t xml.Token) error {
 		val, err = e.getAttrIntValue(&st, "targetSdkVersion")
 		if err == nil {
 			e.targetSdkVersion = val
-		} else if err != io.EOF {
+		} else if err == io.EOF {
+			e.targetSdkVersion = e.minSdkVersion
+		} else {
 			return err
 		}
 
-- 
2.43.0


From 0dcfd09fc2d27b8441121a32026a68aed2044f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 16/30] fix: reject negative frosting key indexes instead of
 panicking

---
 signingblock/frosting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/frosting.go b/signingblock/frosting.go
index e514cb2..949bb5a 100644
--- a/signingblock/frosting.go
+++ b/signingblock/frosting.go
@@ -288,7 +288,7 @@ func (f *frostingInfo) parseFrostingBlock(block []byte) error {
 
 		keyIndex, err := f.readInt32(bf)
 		keys := strings.Split(frostingPublicKeys, ",")
-		if err != nil || int(keyIndex) >= len(keys) {
+		if err != nil || keyIndex < 0 || int(keyIndex) >= len(keys) {
 			return fmt.Errorf("invalid/unknown key used in this frosting (idx %d)!", keyIndex)
 		}
 
-- 
2.43.0


From 9d182736e07a54f8c8d6feb7b13b31fbed5e35d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 17/30] verif hook: frosting keys can be replaced in builds
 with the verif tag

---
 signingblock/frosting.go            |  2 +-
 signingblock/frosting_keys.go       |  8 ++++++++
 signingblock/frosting_keys_verif.go | 14 ++++++++++++++
 3 files changed, 23 insertions(+), 1 deletion(-)
 create mode 100644 signingblock/frosting_keys.go
 create mode 100644 signingblock/frosting_keys_verif.go

diff --git a/signingblock/frosting.go b/signingblock/frosting.go
index 949bb5a..1f0c0a7 100644
--- a/signingblock/frosting.go
+++ b/signingblock/frosting.go
@@ -287,7 +287,7 @@ func (f *frostingInfo) parseFrostingBlock(block []byte) error {
 		}
 
 		keyIndex, err := f.readInt32(bf)
-		keys := strings.Split(frostingPublicKeys, ",")
+		keys := strings.Split(knownFrostingKeys(), ",")
 		if err != nil || keyIndex < 0 || int(keyIndex) >= len(keys) {
 			return fmt.Errorf("invalid/unknown key used in this frosting (idx %d)!", keyIndex)
 		}
diff --git a/signingblock/frosting_keys.go b/signingblock/frosting_keys.go
new file mode 100644
index 0000000..ab778d4
--- /dev/null
+++ b/signingblock/frosting_keys.go
@@ -0,0 +1,8 @@
+//go:build !verif
+
+package signingblock
+
+// knownFrostingKeys returns the comma separated keys that may sign frosting blocks.
+func knownFrostingKeys() string {
+	return frostingPublicKeys
+}
diff --git a/signingblock/frosting_keys_verif.go b/signingblock/frosting_keys_verif.go
new file mode 100644
index 0000000..a63c0ec
--- /dev/null
+++ b/signingblock/frosting_keys_verif.go
@@ -0,0 +1,14 @@
+//go:build verif
+
+package signingblock
+
+// FrostingKeysOverride replaces the keys that may sign frosting blocks when not empty.
+// It only exists in builds with the verif tag.
+var FrostingKeysOverride string
+
+func knownFrostingKeys() string {
+	if FrostingKeysOverride != "" {
+		return FrostingKeysOverride
+	}
+	return frostingPublicKeys
+}
-- 
2.43.0


From 1fd67beea7e85c37f501a47b1d4dfbc164191694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 18/30] fix: bounds and nesting checks in the BER transcoder

---
 fullsailor/pkcs7/ber.go | 50 ++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/fullsailor/pkcs7/ber.go b/fullsailor/pkcs7/ber.go
index 3f56ea6..265adf6 100644
--- a/fullsailor/pkcs7/ber.go
+++ b/fullsailor/pkcs7/ber.go
@@ -7,6 +7,11 @@ import (
 
 // var encodeIndent = 0
 
+// Nesting limit of the transcoded messages, the deepest real ones are around 20 levels.
+const maxBerDepth = 128
+
+var errBerTruncated = errors.New("ber2der: unexpected end of data")
+
 type asn1Object interface {
 	EncodeTo(writer *bytes.Buffer) error
 }
@@ -61,7 +66,7 @@ func ber2der(ber []byte) ([]byte, error) {
 	//fmt.Printf("--> ber2der: Transcoding %d bytes\n", len(ber))
 	out := new(bytes.Buffer)
 
-	obj, _, err := readObject(ber, 0)
+	obj, _, err := readObject(ber, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -132,18 +137,28 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 	return
 }
 
-func readObject(ber []byte, offset int) (asn1Object, int, error) {
+// readObject reads the object at offset, which must not extend beyond the end of ber.
+func readObject(ber []byte, offset, depth int) (asn1Object, int, error) {
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
+	if depth > maxBerDepth {
+		return nil, 0, errors.New("ber2der: BER objects are nested too deeply")
+	}
+	if len(ber)-offset < 2 {
+		return nil, 0, errBerTruncated
+	}
 	tagStart := offset
 	b := ber[offset]
 	offset++
 	tag := b & 0x1F // last 5 bits
 	if tag == 0x1F {
 		tag = 0
-		for ber[offset] >= 0x80 {
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			tag = tag*128 + ber[offset] - 0x80
 			offset++
 		}
+		if len(ber)-offset < 2 {
+			return nil, 0, errBerTruncated
+		}
 		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
@@ -167,6 +182,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if numberOfBytes > len(ber)-offset {
+			return nil, 0, errBerTruncated
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
@@ -189,7 +207,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 
 	//fmt.Printf("--> length        : %d\n", length)
 	contentEnd := offset + length
-	if contentEnd > len(ber) {
+	if length > len(ber)-offset {
 		return nil, 0, errors.New("ber2der: BER tag length is more than available data")
 	}
 	//fmt.Printf("--> content start : %d\n", offset)
@@ -206,16 +224,14 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 			content:  ber[offset:contentEnd],
 		}
 	} else {
+		// The children must not extend beyond their parent
+		content := ber
+		if !indefinite {
+			content = ber[:contentEnd]
+		}
+
 		var subObjects []asn1Object
 		for (offset < contentEnd) || indefinite {
-			var subObj asn1Object
-			var err error
-			subObj, offset, err = readObject(ber, offset)
-			if err != nil {
-				return nil, 0, err
-			}
-			subObjects = append(subObjects, subObj)
-
 			if indefinite {
 				terminated, err := isIndefiniteTermination(ber, offset)
 				if err != nil {
@@ -226,6 +242,14 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 					break
 				}
 			}
+
+			var subObj asn1Object
+			var err error
+			subObj, offset, err = readObject(content, offset, depth+1)
+			if err != nil {
+				return nil, 0, err
+			}
+			subObjects = append(subObjects, subObj)
 		}
 		obj = asn1Structured{
 			tagBytes: ber[tagStart:tagEnd],
@@ -246,5 +270,5 @@ func isIndefiniteTermination(ber []byte, offset int) (bool, error) {
 		return false, errors.New("ber2der: Invalid BER format")
 	}
 
-	return bytes.Index(ber[offset:], []byte{0x0, 0x0}) == 0, nil
+	return bytes.HasPrefix(ber[offset:], []byte{0x0, 0x0}), nil
 }
-- 
2.43.0


From ca6b56916d1fbdf3fc02d6e27aa2a64fbd3d44ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 19/30] fix: errors instead of panics for unusual keys and
 damaged content in PKCS#7 encryption

---
 fullsailor/pkcs7/pkcs7.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index f8e882d..9a53082 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -368,7 +368,7 @@ func (p7 *PKCS7) Decrypt(cert *x509.Certificate, pk crypto.PrivateKey) ([]byte,
 	if recipient.EncryptedKey == nil {
 		return nil, errors.New("pkcs7: no enveloped recipient for provided certificate")
 	}
-	if priv := pk.(*rsa.PrivateKey); priv != nil {
+	if priv, ok := pk.(*rsa.PrivateKey); ok && priv != nil {
 		var contentKey []byte
 		contentKey, err := rsa.DecryptPKCS1v15(rand.Reader, priv, recipient.EncryptedKey)
 		if err != nil {
@@ -376,7 +376,7 @@ func (p7 *PKCS7) Decrypt(cert *x509.Certificate, pk crypto.PrivateKey) ([]byte,
 		}
 		return data.EncryptedContentInfo.decrypt(contentKey)
 	}
-	fmt.Printf("Unsupported Private Key: %v\n", pk)
+	fmt.Printf("Unsupported Private Key: %T\n", pk)
 	return nil, ErrUnsupportedAlgorithm
 }
 
@@ -404,13 +404,14 @@ func (eci encryptedContentInfo) decrypt(key []byte) ([]byte, error) {
 		// Complex case to concat all of the children OCTET STRINGs
 		var buf bytes.Buffer
 		cypherbytes := eci.EncryptedContent.Bytes
-		for {
+		for len(cypherbytes) > 0 {
 			var part []byte
-			cypherbytes, _ = asn1andr.Unmarshal(cypherbytes, &part)
-			buf.Write(part)
-			if cypherbytes == nil {
-				break
+			rest, err := asn1andr.Unmarshal(cypherbytes, &part)
+			if err != nil {
+				return nil, err
 			}
+			buf.Write(part)
+			cypherbytes = rest
 		}
 		cyphertext = buf.Bytes()
 	} else {
@@ -470,6 +471,9 @@ func (eci encryptedContentInfo) decrypt(key []byte) ([]byte, error) {
 		return nil, errors.New("pkcs7: encryption algorithm parameters are malformed")
 	}
 	mode := cipher.NewCBCDecrypter(block, iv)
+	if len(cyphertext)%mode.BlockSize() != 0 {
+		return nil, errors.New("pkcs7: encrypted content is not a multiple of the block size")
+	}
 	plaintext := make([]byte, len(cyphertext))
 	mode.CryptBlocks(plaintext, cyphertext)
 	if plaintext, err = unpad(plaintext, mode.BlockSize()); err != nil {
@@ -513,6 +517,9 @@ func unpad(data []byte, blocklen int) ([]byte, error) {
 
 	// the last byte is the length of padding
 	padlen := int(data[len(data)-1])
+	if padlen < 1 || padlen > blocklen || padlen > len(data) {
+		return nil, errors.New("invalid padding")
+	}
 
 	// check padding integrity, all bytes should be the same
 	pad := data[len(data)-padlen:]
@@ -984,7 +991,7 @@ func marshalEncryptedContent(content []byte) asn1.RawValue {
 }
 
 func encryptKey(key []byte, recipient *x509.Certificate) ([]byte, error) {
-	if pub := recipient.PublicKey.(*rsa.PublicKey); pub != nil {
+	if pub, ok := recipient.PublicKey.(*rsa.PublicKey); ok && pub != nil {
 		return rsa.EncryptPKCS1v15(rand.Reader, pub, key)
 	}
 	return nil, ErrUnsupportedAlgorithm
-- 
2.43.0


From c8937f15e545a236b11766112040cc20dec26985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 20/30] fix: do not verify signatures with arbitrarily large
 keys

---
 fullsailor/pkcs7/pkcs7.go |  3 +++
 internal/x509andr/x509.go | 28 ++++++++++++++++++++++++++++
 schemev1.go               |  5 +++++
 signingblock/utils.go     |  6 ++++++
 4 files changed, 42 insertions(+)

diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index 9a53082..3acb358 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -279,6 +279,9 @@ func verifySignature(p7 *PKCS7, signer signerInfo) error {
 	if cert == nil {
 		return errors.New("pkcs7: No certificate for signer")
 	}
+	if err := x509andr.CheckPublicKeySize(cert.PublicKey); err != nil {
+		return err
+	}
 
 	algo := getSignatureAlgorithmFromAI(signer.DigestEncryptionAlgorithm)
 	if algo == x509.UnknownSignatureAlgorithm {
diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index 548d126..aa6ca65 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -838,9 +838,37 @@ func (c *Certificate) CheckSignature(algo SignatureAlgorithm, signed, signature
 	return checkSignature(algo, signed, signature, c.PublicKey)
 }
 
+// Largest keys that signatures are verified with, the same limits as in BoringSSL.
+// Verifying a signature with an arbitrarily large key would take arbitrarily long.
+const (
+	maxRSAModulusBits = 16 * 1024
+	maxDSAModulusBits = 10000
+	maxDSAOrderBits   = 256
+)
+
+// CheckPublicKeySize returns an error if the key is too large to verify signatures with.
+func CheckPublicKeySize(publicKey crypto.PublicKey) error {
+	switch pub := publicKey.(type) {
+	case *rsa.PublicKey:
+		if pub.N.BitLen() > maxRSAModulusBits {
+			return errors.New("x509: RSA public key is too large")
+		}
+	case *dsa.PublicKey:
+		if pub.P.BitLen() > maxDSAModulusBits || pub.Q.BitLen() > maxDSAOrderBits ||
+			pub.G.BitLen() > maxDSAModulusBits || pub.Y.BitLen() > maxDSAModulusBits {
+			return errors.New("x509: DSA public key is too large")
+		}
+	}
+	return nil
+}
+
 // CheckSignature verifies that signature is a valid signature over signed from
 // a crypto.PublicKey.
 func checkSignature(algo SignatureAlgorithm, signed, signature []byte, publicKey crypto.PublicKey) (err error) {
+	if err := CheckPublicKeySize(publicKey); err != nil {
+		return err
+	}
+
 	var hashType crypto.Hash
 
 	switch algo {
diff --git a/schemev1.go b/schemev1.go
index 250e8f5..b914709 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -24,6 +24,7 @@ import (
 	"strings"
 
 	"github.com/avast/apkverifier/internal/asn1andr"
+	"github.com/avast/apkverifier/internal/x509andr"
 
 	"github.com/avast/apkverifier/apilevel"
 
@@ -858,6 +859,10 @@ type dsaSignature struct {
 type ecdsaSignature dsaSignature
 
 func (p *schemeV1) checkSignature(cert *x509.Certificate, algo x509.SignatureAlgorithm, signed, signature []byte) error {
+	if err := x509andr.CheckPublicKeySize(cert.PublicKey); err != nil {
+		return err
+	}
+
 	// Go1.15 rejects signatures without padding, add one.
 	if rsaPub, ok := cert.PublicKey.(*rsa.PublicKey); ok {
 		pubSize := (rsaPub.N.BitLen() + 7) / 8 // rsaPub.Size(), but .Size() is only since go1.11
diff --git a/signingblock/utils.go b/signingblock/utils.go
index 09ad9c9..bac8e62 100644
--- a/signingblock/utils.go
+++ b/signingblock/utils.go
@@ -15,6 +15,8 @@ import (
 	"fmt"
 	"math/big"
 	"strings"
+
+	"github.com/avast/apkverifier/internal/x509andr"
 )
 
 func getLenghtPrefixedSlice(r *bytes.Buffer) (*bytes.Buffer, error) {
@@ -37,6 +39,10 @@ func getLenghtPrefixedSlice(r *bytes.Buffer) (*bytes.Buffer, error) {
 }
 
 func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataBytes, signature []byte) error {
+	if err := x509andr.CheckPublicKeySize(publicKey); err != nil {
+		return err
+	}
+
 	switch algo {
 	case SigRsaPssWithSha256, SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512, SigVerityRsaPkcs1V15WithSha256:
 		if _, ok := publicKey.(*rsa.PublicKey); !ok {
-- 
2.43.0


From 1b515ea4942618d2f1605b7b455ff5ad8e6fd8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 21/30] fix: infinite recursion when printing unknown lineage
 capabilities

---
 signingblock/schemev3lineage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/schemev3lineage.go b/signingblock/schemev3lineage.go
index 1edbb1e..880128c 100644
--- a/signingblock/schemev3lineage.go
+++ b/signingblock/schemev3lineage.go
@@ -50,7 +50,7 @@ func (c LineageCertCaps) String() string {
 		case CapAuth:
 			values = append(values, "Auth")
 		default:
-			values = append(values, fmt.Sprintf("0x%x", mask))
+			values = append(values, fmt.Sprintf("0x%x", int32(mask)))
 		}
 	}
 
-- 
2.43.0


From a154750ec75bb09d80ae07ee7ae00bb00ad118f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 22/30] fix: panic on empty continuation lines in manifests

---
 manifest.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 933516f..9528b2c 100644
--- a/manifest.go
+++ b/manifest.go
@@ -186,7 +186,9 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 			continue
 		case ' ':
 			if ctx.consecutiveLineBreaks == 1 {
-				value += string(ctx.data[mark:last])
+				if last > mark {
+					value += string(ctx.data[mark:last])
+				}
 				mark = ctx.pos
 				ctx.consecutiveLineBreaks = 0
 				continue
-- 
2.43.0


From e9434a0ac16cb3ff46380e93a70e078f6a8360d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 23/30] fix: failed reads of the APK could change which
 signature is verified

---
 apkverifier.go               | 28 +++++++++++++--
 internal/ioerror/ioerror.go  | 66 ++++++++++++++++++++++++++++++++++++
 signingblock/signingblock.go | 22 ++++++++++++
 3 files changed, 113 insertions(+), 3 deletions(-)
 create mode 100644 internal/ioerror/ioerror.go

diff --git a/apkverifier.go b/apkverifier.go
index 6680674..e170ac2 100644
--- a/apkverifier.go
+++ b/apkverifier.go
@@ -14,6 +14,7 @@ import (
 
 	"github.com/avast/apkparser"
 	"github.com/avast/apkverifier/apilevel"
+	"github.com/avast/apkverifier/internal/ioerror"
 	"github.com/avast/apkverifier/signingblock"
 )
 
@@ -72,6 +73,17 @@ func VerifyWithSdkVersion(path string, optionalZip *apkparser.ZipReader, minSdkV
 // inside the <minSdkVersion;maxSdkVersion> interval.
 // minSdkVersion == apilevel.V_AnyMin means it will obtain the minSdkVersion from AndroidManifest.
 func VerifyWithSdkVersionReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader, minSdkVersion, maxSdkVersion int32) (res Result, err error) {
+	r, ioErr, err := ioerror.NewReader(r)
+	if err != nil {
+		return Result{}, err
+	}
+	defer func() {
+		// An APK that could not be read completely must not pass because of what was not read
+		if (err == nil || err == ErrMixedDexApkFile) && ioErr.Err() != nil {
+			err = ioErr.Err()
+		}
+	}()
+
 	if optionalZip == nil {
 		optionalZip, err = apkparser.OpenZipReader(r)
 		if err != nil {
@@ -154,8 +166,17 @@ func ExtractCerts(path string, optionalZip *apkparser.ZipReader) ([][]*x509.Cert
 	return ExtractCertsReader(f, optionalZip)
 }
 
-func ExtractCertsReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader) ([][]*x509.Certificate, error) {
-	var err error
+func ExtractCertsReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader) (certs [][]*x509.Certificate, err error) {
+	r, ioErr, err := ioerror.NewReader(r)
+	if err != nil {
+		return nil, err
+	}
+	defer func() {
+		if err == nil {
+			err = ioErr.Err()
+		}
+	}()
+
 	if optionalZip == nil {
 		optionalZip, err = apkparser.OpenZipReader(r)
 		if err != nil {
@@ -164,7 +185,8 @@ func ExtractCertsReader(r io.ReadSeeker, optionalZip *apkparser.ZipReader) ([][]
 		defer optionalZip.Close()
 	}
 
-	certs, signingBlockError := signingblock.ExtractCertsReader(r, apilevel.V_AnyMin, apilevel.V_AnyMax)
+	var signingBlockError error
+	certs, signingBlockError = signingblock.ExtractCertsReader(r, apilevel.V_AnyMin, apilevel.V_AnyMax)
 	if !signingblock.IsSigningBlockNotFoundError(signingBlockError) {
 		return certs, signingBlockError
 	}
diff --git a/internal/ioerror/ioerror.go b/internal/ioerror/ioerror.go
new file mode 100644
index 0000000..5021341
--- /dev/null
+++ b/internal/ioerror/ioerror.go
@@ -0,0 +1,66 @@
+// Package ioerror tells failed reads apart from files that are damaged.
+package ioerror
+
+import "io"
+
+// Reader remembers the first time reading the file failed. A signature that is not there, a damaged file
+// and a failed read look the same to the code that is using the reader, but only the former two
+// say something about the file.
+type Reader struct {
+	r    io.ReadSeeker
+	size int64
+	err  error
+}
+
+type readerAt struct {
+	*Reader
+	at io.ReaderAt
+}
+
+// NewReader returns the reader to use instead of r and the Reader that remembers its errors.
+func NewReader(r io.ReadSeeker) (io.ReadSeeker, *Reader, error) {
+	size, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return nil, nil, err
+	}
+
+	res := &Reader{r: r, size: size}
+	if at, ok := r.(io.ReaderAt); ok {
+		return &readerAt{res, at}, res, nil
+	}
+	return res, res, nil
+}
+
+// Err returns the first error, io.EOF excluded.
+func (r *Reader) Err() error {
+	return r.err
+}
+
+func (r *Reader) note(err error) {
+	if err != nil && err != io.EOF && r.err == nil {
+		r.err = err
+	}
+}
+
+func (r *Reader) Read(p []byte) (n int, err error) {
+	n, err = r.r.Read(p)
+	r.note(err)
+	return
+}
+
+func (r *Reader) Seek(offset int64, whence int) (pos int64, err error) {
+	pos, err = r.r.Seek(offset, whence)
+	// Offsets that are outside of the file come from the file
+	if offset >= 0 && offset <= r.size {
+		r.note(err)
+	}
+	return
+}
+
+func (r *readerAt) ReadAt(p []byte, offset int64) (n int, err error) {
+	n, err = r.at.ReadAt(p, offset)
+	if offset >= 0 && offset <= r.size {
+		r.note(err)
+	}
+	return
+}
diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index c0c26e0..2e7ebf5 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -15,6 +15,7 @@ import (
 	"github.com/avast/apkparser"
 
 	"github.com/avast/apkverifier/apilevel"
+	"github.com/avast/apkverifier/internal/ioerror"
 )
 
 // https://source.android.com/security/apksigning/v2.html
@@ -141,6 +142,17 @@ func VerifySigningBlock(path string, minSdkVersion, maxSdkVersion int32) (res *V
 }
 
 func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersion int32, optionalZip *apkparser.ZipReader) (res *VerificationResult, magic uint32, err error) {
+	r, ioErr, err := ioerror.NewReader(r)
+	if err != nil {
+		return
+	}
+	defer func() {
+		// What could not be read must not make a difference to which signature is used
+		if (err == nil || IsSigningBlockNotFoundError(err)) && ioErr.Err() != nil {
+			err = ioErr.Err()
+		}
+	}()
+
 	if optionalZip == nil {
 		optionalZip, err = apkparser.OpenZipReader(r)
 		if err != nil {
@@ -233,6 +245,16 @@ func ExtractCerts(path string, minSdkVersion, maxSdkVersion int32) (certs [][]*x
 }
 
 func ExtractCertsReader(r io.ReadSeeker, minSdkVersion, maxSdkVersion int32) (certs [][]*x509.Certificate, err error) {
+	r, ioErr, err := ioerror.NewReader(r)
+	if err != nil {
+		return
+	}
+	defer func() {
+		if (err == nil || IsSigningBlockNotFoundError(err)) && ioErr.Err() != nil {
+			err = ioErr.Err()
+		}
+	}()
+
 	var s *signingBlock
 	s, _, err = newSigningBlock(r)
 	if err != nil {
-- 
2.43.0


From 291b5eeef411ea881bf996252cf43d4688a7b188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 24/30] fix: RSA moduli without a sign octet lost their leading
 0xff octets, zero moduli were accepted

---
 internal/x509andr/x509.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index aa6ca65..b47a2be 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -1006,19 +1006,18 @@ func parsePublicKey(algo PublicKeyAlgorithm, keyData *publicKeyInfo, needsReenco
 			return nil, errors.New("x509: trailing data after RSA public key")
 		}
 
-		if p.N.Sign() <= 0 {
+		if p.N.Sign() == 0 {
+			return nil, errors.New("x509: RSA modulus is zero")
+		}
+		if p.N.Sign() < 0 {
 			// CHADRON: Android does not care, re-encode to positive
 			// return nil, errors.New("x509: RSA modulus is not a positive number")
 			if needsReencode != nil {
 				*needsReencode = true
 			}
-			p.N.Neg(p.N)
-			p.N.Sub(p.N, big.NewInt(1))
-			bytes := p.N.Bytes()
-			for i := range bytes {
-				bytes[i] = ^bytes[i]
-			}
-			p.N.SetBytes(bytes)
+			// The sign octet is missing: the octets of the two's complement are the modulus.
+			octets := new(big.Int).Not(p.N).BitLen()/8 + 1
+			p.N.Add(p.N, new(big.Int).Lsh(big.NewInt(1), uint(8*octets)))
 		}
 		if p.E <= 0 {
 			return nil, errors.New("x509: RSA public exponent is not a positive number")
-- 
2.43.0


From ed96bdaf0242212c8b9fc9d656e5a425870115ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:46 +0000
Subject: [PATCH 25/30] fix: lineages with RSA-PSS-SHA256 were reported with an
 absurd minimum SDK level

---
 signingblock/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/signer.go b/signingblock/signer.go
index 200d252..a742755 100644
--- a/signingblock/signer.go
+++ b/signingblock/signer.go
@@ -107,7 +107,7 @@ func (algo SignatureAlgorithm) getDigestType() contentDigest {
 
 func (algo SignatureAlgorithm) getMinSdkVersion() int32 {
 	switch algo {
-	case SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
+	case SigRsaPssWithSha256, SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512,
 		SigEcdsaWithSha256, SigEcdsaWithSha512, SigDsaWithSha256:
 		return apilevel.V7_0_Nougat
 	case SigVerityRsaPkcs1V15WithSha256, SigVerityEcdsaWithSha256, SigVerityDsaWithSha256:
-- 
2.43.0


From 2457863624b440b128ca842091dcb2c453050b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 26/30] fix: pkcs7: do not pad into the caller's buffer

Encrypt appended the CBC padding to the caller's content slice, which
overwrote what followed it in the caller's buffer when the slice had spare
capacity.
---
 fullsailor/pkcs7/pkcs7.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fullsailor/pkcs7/pkcs7.go b/fullsailor/pkcs7/pkcs7.go
index 3acb358..a7a482e 100644
--- a/fullsailor/pkcs7/pkcs7.go
+++ b/fullsailor/pkcs7/pkcs7.go
@@ -507,7 +507,8 @@ func pad(data []byte, blocklen int) ([]byte, error) {
 		padlen = blocklen
 	}
 	pad := bytes.Repeat([]byte{byte(padlen)}, padlen)
-	return append(data, pad...), nil
+	// Clip the capacity, so that the padding never ends up in the caller's buffer.
+	return append(data[:len(data):len(data)], pad...), nil
 }
 
 func unpad(data []byte, blocklen int) ([]byte, error) {
-- 
2.43.0


From 24f5286e7b9492d174692677c980714c91bbe8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:51 +0000
Subject: [PATCH 27/30] fix: x509andr: sign certificate requests with PSS when
 the template asks for it

---
 internal/x509andr/x509.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/x509andr/x509.go b/internal/x509andr/x509.go
index b47a2be..e03f8f6 100644
--- a/internal/x509andr/x509.go
+++ b/internal/x509andr/x509.go
@@ -2317,8 +2317,17 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 	h.Write(tbsCSRContents)
 	digest := h.Sum(nil)
 
+	var signerOpts crypto.SignerOpts
+	signerOpts = hashFunc
+	if template.SignatureAlgorithm != 0 && template.SignatureAlgorithm.isRSAPSS() {
+		signerOpts = &rsa.PSSOptions{
+			SaltLength: rsa.PSSSaltLengthEqualsHash,
+			Hash:       hashFunc,
+		}
+	}
+
 	var signature []byte
-	signature, err = key.Sign(rand, digest, hashFunc)
+	signature, err = key.Sign(rand, digest, signerOpts)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 16d6f2694594480d6d2e309724bcc40538856a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:16 +0000
Subject: [PATCH 28/30] fix: report source stamp lineages without nodes

A proof-of-rotation attribute with nothing after its version made the stamp's
attributes silently end there, without any error.
---
 signingblock/sourcestamp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signingblock/sourcestamp.go b/signingblock/sourcestamp.go
index 9e538c1..7ab467a 100644
--- a/signingblock/sourcestamp.go
+++ b/signingblock/sourcestamp.go
@@ -468,6 +468,10 @@ func (v *sourceStampVerifier) parseStampCertLineage(lineage *bytes.Buffer) []*So
 			Flags:      flags,
 		})
 	}
+	if len(res) == 0 {
+		v.addError("lineage has no nodes")
+		return nil
+	}
 	return res
 }
 
-- 
2.43.0


From fb32a011e7f1fcd990b48a7054fef9808a1df727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:29 +0000
Subject: [PATCH 29/30] fix: compare complete names when looking for v1
 certificates

pkix.Name.ToRDNSequence leaves out attributes which pkix.Name has no field
for (emailAddress, DC, ...), and special characters were replaced by their
escaping backslash, so different names could be taken for the same one.
---
 schemev1.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index b914709..28598a1 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -978,7 +978,12 @@ func (a byX501Canonical) Less(i, j int) bool {
 }
 
 func (p *schemeV1) pkixCanonical(n *pkix.Name) string {
-	return p.pkixCanonicalSeq(n.ToRDNSequence())
+	// ToRDNSequence leaves out what pkix.Name has no field for (emailAddress, DC...), Names are complete
+	seq := make(pkix.RDNSequence, 0, len(n.Names))
+	for _, atav := range n.Names {
+		seq = append(seq, pkix.RelativeDistinguishedNameSET{atav})
+	}
+	return p.pkixCanonicalSeq(seq)
 }
 
 func (p *schemeV1) pkixCanonicalSeq(n pkix.RDNSequence) string {
@@ -1013,6 +1018,7 @@ func (p *schemeV1) pkixCanonicalSeq(n pkix.RDNSequence) string {
 						res.WriteByte(' ')
 					case '"', '\\', ',', '+', '<', '>', ';':
 						res.WriteByte('\\')
+						res.WriteByte(val[index])
 					default:
 						res.WriteByte(val[index])
 					}
-- 
2.43.0


From c453728d516a38dc93d27e0c7b230722488e30fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:22 +0000
Subject: [PATCH 30/30] fix: a source stamp's outcome must not depend on the
 iteration order of a map

Of several supported signatures for the same platform level and digest, the
one to verify was picked in map order, so that the same APK sometimes had a
valid stamp and sometimes an invalid one. The first one listed counts now.
---
 signingblock/sourcestamp.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/signingblock/sourcestamp.go b/signingblock/sourcestamp.go
index 7ab467a..daa1211 100644
--- a/signingblock/sourcestamp.go
+++ b/signingblock/sourcestamp.go
@@ -217,6 +217,7 @@ func (v *sourceStampVerifier) getSignatureSchemeDigest(contentDigests map[conten
 
 func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificate, signatures *bytes.Buffer) bool {
 	supportedSignatures := map[SignatureAlgorithm][]byte{}
+	var order []SignatureAlgorithm // the keys of supportedSignatures, as they are listed
 	for count := 0; signatures.Len() != 0; count++ {
 		signature, err := getLenghtPrefixedSlice(signatures)
 		if err != nil {
@@ -240,6 +241,9 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 			v.addError("failed to parse signature bytes %d: %s", count, err.Error())
 			return false
 		}
+		if _, prs := supportedSignatures[sigAlgoId]; !prs {
+			order = append(order, sigAlgoId)
+		}
 		supportedSignatures[sigAlgoId] = sigBytes.Bytes()
 	}
 
@@ -248,13 +252,17 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 		return false
 	}
 
-	toVerify := v.filterSignaturesToVerify(supportedSignatures)
+	toVerify := v.filterSignaturesToVerify(supportedSignatures, order)
 	if len(toVerify) == 0 {
 		v.addError("no supported signatures for verification")
 		return false
 	}
 
-	for algo, sigBytes := range toVerify {
+	for _, algo := range order {
+		sigBytes, prs := toVerify[algo]
+		if !prs {
+			continue
+		}
 		if err := verifySignature(cert.PublicKey, algo, data, sigBytes); err != nil {
 			v.addError("failed to verify signature %s: %s", algo.String(), err.Error())
 			return false
@@ -264,7 +272,7 @@ func (v *sourceStampVerifier) verifySignature(data []byte, cert *x509.Certificat
 	return true
 }
 
-func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureAlgorithm][]byte) map[SignatureAlgorithm][]byte {
+func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureAlgorithm][]byte, order []SignatureAlgorithm) map[SignatureAlgorithm][]byte {
 	type signature struct {
 		algo SignatureAlgorithm
 		data []byte
@@ -273,7 +281,8 @@ func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureA
 	candidates := map[int32]*signature{}
 
 	var minProvidedSignaturesVersion int32 = math.MaxInt32
-	for algo, content := range signatures {
+	for _, algo := range order {
+		content := signatures[algo]
 		sigMin := algo.getMinSdkVersionJca()
 		if sigMin > v.maxSdkVersion {
 			continue
@@ -289,7 +298,7 @@ func (v *sourceStampVerifier) filterSignaturesToVerify(signatures map[SignatureA
 
 	if v.minSdkVersion < minProvidedSignaturesVersion || len(candidates) == 0 {
 		var present []string
-		for algo := range signatures {
+		for _, algo := range order {
 			present = append(present, algo.String())
 		}
 
-- 
2.43.0

