#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V = "VerifyWithSdkVersionReader / Verify result and error"

prop("C01", "Correctly block-signed APKs verify and report scheme and signers",
 "An APK correctly signed with APK Signature Scheme v2, v3 or v3.1, with any supported signature algorithm (RSA-PSS, RSA PKCS#1 v1.5, ECDSA, DSA, and the verity variants), key size, certificate chain and content size, verifies without error for every SDK range (minimum >= 24) that its signatures cover. The reported scheme is the newest one present that the maximum SDK level understands (v2 from 24, v3 from 28, v3.1 from 33), and the reported certificates are exactly each signer's certificate chain, in signer order and byte for byte.",
 ["inputs", "configurations"],
 "For all APK contents, signer key types and sizes, algorithm combinations per signer (strongest one decides), certificate chains, additional attributes that the schemes define or that are unknown, and all SDK ranges the signers cover.",
 "The repository's APK tests need the apksig corpus, which is fixed (and absent here); even with it they sample a few dozen key/algorithm/size/range combinations out of the product.",
 ["signingblock/signingblock.go", "signingblock/schemev2.go", "signingblock/schemev3.go", "signingblock/schemev31.go", "signingblock/signer.go", "signingblock/utils.go"],
 [("scheme selection", "signingblock.pickScheme / findSignatureBlocks"), ("signer parsing", "schemeV2/V3.verifySigner, signerContext"), ("signature primitives", "signingblock/utils.go verifySignature")], V)

prop("C02", "Any change to APK content outside the signing block is rejected",
 "If an APK verifies through v2, v3 or v3.1, then changing, inserting, removing or moving any bytes outside the APK Signing Block (ZIP entries and their padding, central directory, end-of-central-directory record, ZIP comment), even while keeping the ZIP structure consistent, makes verification return an error for every SDK range whose minimum is at least 24. This holds for every byte position and content size, for every digest kind, and when several digest kinds or several signers are present.",
 ["inputs"],
 "For all signed APKs and all single or combined edits of content bytes (bit flips anywhere, insertions and deletions at section and chunk borders with offsets patched, truncation, appended data, swapped chunks, entry added to the central directory, comment change).",
 "The tests contain a handful of pre-broken APKs; they cannot cover every byte position, chunk or page border, and the combination with each digest kind.",
 ["signingblock/signingblock.go", "signingblock/verity.go", "signingblock/datasource.go"],
 [("digest computation", "signingBlock.verifyIntegrity, computeContentDigests"), ("section boundaries", "findEocd, findApkSigningBlock, dataSourceApk")], V)

prop("C03", "Every authenticated field of a v2/v3 signer record is enforced",
 "A signer record is only accepted if its strongest supported signature verifies over its exact signed data with the record's public key, that key equals the first certificate's key, the algorithm lists of signatures and digests are identical and in the same order, and for v3 the SDK bounds outside the signed data equal the signed ones and form a valid range. Changing any such field of a valid record (leaving everything else as it was, or re-signing the rest with another key) makes verification fail, and so does a record whose length-prefixed fields are cut off or do not fit the lengths around them.",
 ["inputs"],
 "For all valid signer records (v2, v3, v3.1, every algorithm) and all single-field corruptions: signed data bytes, signature bytes or algorithm ids, public key, certificate, digest list, digests, min/max SDK, attribute bytes, removal or addition of list elements, length fields.",
 "The tests have one pre-made broken APK for some of these fields and none for others (for example the signed and unsigned maximum SDK of v3 were never compared).",
 ["signingblock/schemev2.go", "signingblock/schemev3.go", "signingblock/signer.go", "signingblock/utils.go"],
 [("signature and key check", "signerContext.parsePublicKey / parseCertificates"), ("digest/algorithm agreement", "signerContext.parseDigests"), ("sdk bounds", "schemeV3.verifySigner")], V)

prop("C04", "Correctly v1-signed (JAR) APKs verify and report their signers",
 "An APK correctly signed with the v1 (JAR) scheme verifies without error for every SDK range that may rely on v1 (minimum below 24, or no signing block) and its certificates are reported as that signer's chain, starting with the certificate whose key signed; certificates are looked up by serial number and complete issuer and subject names, in which only case and repeated spaces do not count. This holds for RSA, DSA and ECDSA keys, every supported digest/signature algorithm identifier pair, with or without signed attributes, whole-manifest digests or per-entry digests only, jarsigner/signtool style files, wrapped lines, and any line ending.",
 ["inputs", "configurations"],
 "For all entry sets (names, sizes, compression), key types, digest algorithms, PKCS#7 forms (DER or BER, with or without signed attributes, extra certificates), manifest layouts and SDK ranges.",
 "Only two v1 APKs are exercised by the tests that run without the external corpus; the corpus itself is a fixed set of combinations.",
 ["schemev1.go", "manifest.go", "fullsailor/pkcs7/pkcs7.go"],
 [("v1 verification", "schemeV1.verify, verifySignature, checkSignature"), ("chain building", "schemeV1.verifySignature, pkixCanonical, pkixCanonicalSeq")], V)

prop("C05", "Any tampering with v1-protected content is rejected",
 "If an APK verifies through v1 only, then changing the content of any ZIP entry outside META-INF/ (AndroidManifest.xml and entries whose ZIP attributes call them directories included), adding, removing or renaming such an entry, or changing MANIFEST.MF, the .SF file, or the signature block's signature in a way that breaks the digest chain or signature makes verification return an error. A signed-attributes signature only counts if its message digest equals the digest of the .SF file.",
 ["inputs"],
 "For all v1-signed APKs and all single edits of entry data, the entry set, MANIFEST.MF sections, .SF sections and PKCS#7 bytes that are covered by the signature.",
 "Tests cover a few pre-broken files; the entry that matters may be any file, with any attributes, and any manifest layout.",
 ["schemev1.go", "manifest.go"],
 [("required entries", "schemeV1.verifyMainManifest"), ("SF to MANIFEST digests", "schemeV1.verify"), ("signature", "schemeV1.verifySignature")], V)

prop("C06", "Stripping a newer signature is detected",
 "When a signer recorded that a newer scheme was used, removing that scheme's block is reported as an error for every SDK range whose maximum supports the stripped scheme: a v1 .SF file whose X-Android-APK-Signed list contains 2 (or 3, from SDK 28) without any signing block, a v2 signer with the stripping-protection attribute whose named block is absent (from SDK 28), and a v3 signer whose rotation-minimum-SDK attribute has no v3.1 block or one that targets another level (from SDK 33). When the recorded scheme is present, or the maximum SDK predates it, the record does not cause rejection.",
 ["inputs", "configurations"],
 "For all combinations of schemes signed, schemes stripped, attribute spellings (list order, spaces, unknown ids, junk tokens) and SDK ranges.",
 "The corpus has a few stripped APKs at one SDK range; the protection must hold for each scheme pair, list form and range.",
 ["schemev1.go", "signingblock/schemev2.go", "signingblock/schemev3.go", "signingblock/schemev31.go"],
 [("SF attribute", "schemeV1.verify"), ("v2 attribute", "schemeV2.verifySigner"), ("v3 attribute", "schemeV3.verifySigner")], V)

prop("C07", "Scheme choice and acceptance follow the requested SDK range and platform policy",
 "The verdict for an APK with any mix of valid, invalid and absent v1/v2/v3 signatures equals the platform rule for the requested range: v2 and newer blocks count only from SDK 24/28/33, an invalid block that the range understands is never ignored (except v3 falling back to v2 when the minimum is below 28), v1 is required when the minimum is below 24 or no usable block exists, and minimum > maximum is an error. The default range takes its minimum from AndroidManifest.xml's minSdkVersion (1 if absent). APKs declaring targetSandboxVersion > 1 (maximum >= 26), or a target SDK (defaulting to the minimum SDK) >= 30 within the range, are rejected when only v1-signed.",
 ["inputs", "configurations"],
 "For all combinations of signature presence and validity per scheme, manifest attributes (present, absent, malformed) and requested SDK ranges around every platform boundary.",
 "It is a decision table with thousands of combinations; the tests hit isolated rows, mostly with the corpus that is absent here.",
 ["apkverifier.go", "signingblock/signingblock.go", "apilevel/levels.go"],
 [("policy", "VerifyWithSdkVersionReader"), ("manifest info", "getManifestInfo"), ("block selection", "findSignatureBlocks, pickScheme, v3 to v2 fallback")], V)

prop("C08", "Reported signers are only identities that signed this very content",
 "When verification succeeds, every certificate chain in the result belongs to a signer whose signature covers this APK's content. Grafting another APK's valid signer record, block or certificate (into v2, v3 or v3.1, next to a valid block, into a block whose verification fails and falls back, or as an extra PKCS#7 certificate or signature file in v1) never adds that identity to an accepted result.",
 ["inputs"],
 "For all pairs of differently signed APKs and all ways of splicing signature material from one into the other, over all SDK ranges.",
 "The tests never splice material from two APKs; the guarantee quantifies over attacker-chosen combinations.",
 ["signingblock/signingblock.go", "signingblock/schemev31.go", "signingblock/schemev3.go", "schemev1.go", "apkverifier.go"],
 [("result certificates", "VerificationResult.Certs, getCertAdder"), ("v3.1 content digests", "schemeV31.parseSigners"), ("v3 to v2 fallback", "VerifySigningBlockReaderWithZip"), ("v1 chains", "schemeV1.chain")], V)

prop("C09", "v3 key-rotation lineage and signer SDK ranges are validated",
 "A v3 or v3.1 APK is accepted only if each signer's proof-of-rotation attribute is a chain in which every certificate after the first is signed by its predecessor with the algorithm that predecessor declared, certificates are unique, and the signer's certificate is the last one; the signers' SDK ranges must be contiguous, non-overlapping and cover the requested range, and lineages of successive signers must extend one another. For an accepted APK the reported lineage equals the longest signer lineage, node by node (certificate, algorithms, signature, capability flags), with SDK level 28 as its minimum, and comparing lineages (NodeList.Equal) tells it from every shorter, longer or otherwise different one.",
 ["inputs"],
 "For all lineages (length, key types, algorithms, flags), signer range partitions and all single corruptions of them, over all requested ranges from 28.",
 "Corpus APKs contain lineages of two or three fixed keys; validity must hold for any chain and any corruption of any node.",
 ["signingblock/schemev3.go", "signingblock/schemev3lineage.go", "signingblock/schemev31.go"],
 [("lineage parsing", "schemeV3.readSigningCertificateLineage"), ("range and lineage consistency", "schemeV3.finalizeResult, consolidateLineages")], V + ", SigningBlockResult.SigningLineage")

prop("C10", "Source stamps are verified faithfully and never sway the APK verdict",
 "A correctly made v2 source stamp (stamp certificate hash entry, signature over the digests of the scheme that verified, signed attributes with time and stamp lineage) is reported with its certificate, time and lineage and without errors; if its certificate, hash entry, signature, attributes or lineage are changed, or it is copied from another APK, or only one of block and hash entry is present, the stamp result carries errors (a warning for a missing hash entry). The signatures that count are, of each platform level on which algorithms were introduced and that the range reaches, that of the strongest algorithm listed (of equally strong ones the first), and all of these must verify; each stamp gets the same outcome every time. Whatever the stamp block contains, the APK's own verdict, scheme and signer certificates are those of the same APK without the block.",
 ["inputs", "configurations"],
 "For all stamp keys, algorithms, verified schemes, attributes, lineages, corruptions and SDK ranges.",
 "The corpus holds some dozen stamps at fixed settings and is absent here.",
 ["signingblock/sourcestamp.go", "signingblock/signingblock.go"],
 [("stamp verification", "sourceStampVerifier.VerifySourceV2Stamp"), ("stamp lineage", "parseStampCertLineage")], "SigningBlockResult.SourceStamp, APK verdict")

prop("C11", "Play frosting is authenticated and bound to the APK bytes",
 "A frosting block is reported without error only if its signature by a known key verifies over its signed part and its digest matches this APK's content and v2 block; otherwise the frosting result carries an error. The first entry that is not disabled decides, with the signature at its own index. Key and info are reported for a valid one. Whatever the frosting block contains, the APK's own verdict, scheme and signer certificates are those of the same APK without it.",
 ["inputs"],
 "For all frosting payload sizes, key indexes, disabled entries, signature positions, corruptions of block or APK, and arbitrary bytes.",
 "No test builds a frosting block at all (the real key is Google's), so nothing but the happy path of a few store APKs was ever seen.",
 ["signingblock/frosting.go", "signingblock/signingblock.go"],
 [("frosting parsing", "frostingInfo.parseFrostingBlock"), ("APK binding", "frostingInfo.verifyApk")], "SigningBlockResult.Frosting, APK verdict",
 hook="the hard-coded public key must be replaceable in a guarded build to generate valid frosting blocks")

prop("C12", "Hostile APK bytes never crash or hang verification",
 "For every byte sequence presented as an APK and every SDK range, verification and certificate extraction return a result or an error: they never panic, exhaust the stack, loop, or allocate out of proportion to the input.",
 ["inputs"],
 "For all inputs: arbitrary bytes, structure-aware mutations of every length, count, tag, algorithm id and key in ZIP, signing block, manifest, signature file, PKCS#7 and certificate structures, with correct signatures kept valid where the code looks past them.",
 "The verifier's purpose is to process untrusted files; tests hold well-formed files and a few broken ones.",
 ["apkverifier.go", "schemev1.go", "manifest.go", "signingblock/signingblock.go", "signingblock/utils.go", "signingblock/signer.go", "signingblock/frosting.go", "signingblock/sourcestamp.go", "fullsailor/pkcs7/ber.go"],
 [("untrusted parsing", "all parsers reachable from Verify and ExtractCerts")], "process outcome of VerifyWithSdkVersionReader, ExtractCertsReader, signingblock.VerifySigningBlockReader, signingblock.ExtractCertsReader")

prop("C13", "The verdict is a function of the APK bytes and SDK range only",
 "Verification by path, by reader, with or without a caller-supplied ZipReader, repeatedly, in any order with other verifications and extractions, on readers left at any position, and concurrently with others in the same process, gives the same error status, scheme and certificate lists (in the same order) for the same bytes and SDK range. A caller-supplied ZipReader stays open and usable afterwards.",
 ["histories", "schedules", "inputs"],
 "For all sequences of API calls over a set of APKs and shared ZipReaders, and for concurrent batches of calls.",
 "Tests call each entry point once per file; order, reuse and concurrency effects and map-iteration effects are never sampled twice.",
 ["apkverifier.go", "signingblock/signingblock.go", "schemev1.go"],
 [("entry points", "Verify*, signingblock.VerifySigningBlock*"), ("per-file state", "apkparser.ZipReader reuse, schemeV1 maps")], "results of repeated and interleaved calls")

prop("C14", "Certificate extraction agrees with verification and needs no valid content",
 "For an APK whose signatures are all valid and that verifies over the unbounded default range, extracting certificates returns exactly the certificate chains verification reports; after changing only content bytes outside the signing block (block-signed) or entry contents (v1-only), extraction still returns the same chains without error. An APK without any signature yields an error or no certificates, never someone else's; when a signer of the block that extraction reads, or a v1 signer, is malformed or its signature does not verify over the bytes it signs, extraction reports an error instead of claiming success.",
 ["inputs"],
 "For all signed APKs of every scheme mix and all content edits that leave the signature material intact.",
 "Extraction is tested on a few files only and never on tampered content.",
 ["apkverifier.go", "signingblock/signingblock.go", "schemev1.go"],
 [("extraction", "ExtractCertsReader, signingblock.ExtractCertsReader, extractCertsSchemeV1")], "ExtractCerts / ExtractCertsReader results")

prop("C15", "DEX-prefixed (Janus) APKs are flagged when only v1 protects them",
 "A file that begins with the DEX magic and otherwise verifies through v1 is reported with exactly ErrMixedDexApkFile together with its signer certificates, and only then: without the DEX magic the error is absent, an invalid signature keeps its own error, and a file whose v2 or newer signature decides (minimum SDK >= 24) is judged by that signature.",
 ["inputs", "configurations"],
 "For all APKs, prefixes (DEX magic, near misses, other data), schemes and SDK ranges.",
 "One corpus file at most; near misses, invalid signatures and v2 interplay are not tested.",
 ["apkverifier.go", "signingblock/signingblock.go"],
 [("magic check", "VerifyWithSdkVersionReader, newSigningBlock")], V)

prop("C16", "Read faults never turn a bad APK into an accepted one",
 "If reading or seeking the APK through the given reader fails at any point, or the reader returns short reads, verification either returns an error or the same verdict as with a perfect reader; an APK that a perfect reader rejects is never accepted, and no signer is reported as verified that a perfect reader would not report. Short reads that deliver all bytes change nothing.",
 ["fault_sequences", "inputs"],
 "For all APKs (valid and invalid, each scheme) and every position in the sequence of read and seek calls at which a fault is injected, once or permanently, with or without partial data.",
 "Tests read from perfect in-memory or on-disk files.",
 ["signingblock/signingblock.go", "signingblock/datasource.go", "signingblock/frosting.go", "schemev1.go", "apkverifier.go"],
 [("error propagation", "every Seek/Read in signingblock and the v1 file hashing loop")], V)

prop("C17", "The lenient ASN.1 codec agrees with encoding/asn1 on standard data",
 "On every input that Go's encoding/asn1 accepts, the repository's lenient ASN.1 decoder accepts it too with an equal value and equal rest (booleans decoded into an empty interface are left out, T61 and General strings keep their bytes, and fractional seconds are not supported); on the documented Android leniencies (superfluous leading zeros in lengths, tags and OID components, long forms where short ones would do, unprintable characters in PrintableString) it yields the value of the strict encoding. Everything else that encoding/asn1 rejects, such as truncated data and wrong tags, it rejects too. Encoding with it gives the same bytes as encoding/asn1 except that the elements of a SET OF keep their order, and decoding its output gives the value back.",
 ["inputs"],
 "For all values of a family of ASN.1 types (integers, big integers, bit and octet strings, OIDs, strings, times, sequences, sets, optional, tagged, explicit, default, raw, any) and all strict and lenient encodings and mutations of them.",
 "Unit tests are tables of literals copied from the Go source tree.",
 ["internal/asn1andr/asn1.go", "internal/asn1andr/common.go", "internal/asn1andr/marshal.go"],
 [("decoder", "asn1andr.Unmarshal"), ("encoder", "asn1andr.Marshal")], "asn1andr.Unmarshal / Marshal results")

prop("C18", "The lenient X.509 parser agrees with crypto/x509 on standard certificates",
 "For every well-formed certificate with an RSA, DSA or EC key that Go's crypto/x509 accepts, the repository's parser accepts it and reports the same public key, names, serial number, validity, signature, signature algorithm (RSASSA-PSS parameters in their usual form), extensions and raw byte sections. Certificates with the deviations that Android tolerates (superfluous zeros in lengths, tags and OIDs, unprintable characters in PrintableString, RSA keys without NULL parameters or without the modulus' sign octet) parse to the same fields with Raw equal to the input bytes. Trailing or truncated data is rejected, and several certificates in a row are read in order.",
 ["inputs"],
 "For all certificates over key types, curves, name forms, extensions, validity encodings and serial numbers, lenient re-encodings of them, and concatenations of several.",
 "Unit tests parse a few literals; the APK path uses whatever certificate the signer made.",
 ["internal/x509andr/x509.go", "fullsailor/pkcs7/pkcs7.go"],
 [("parser", "x509andr.ParseCertificateForGo / ParseCertificatesForGo / ParsePKIXPublicKey")], "parsed certificate fields")

prop("C19", "PKCS#7 signed messages verify exactly when untouched",
 "A PKCS#7 SignedData made by the package (attached or detached, one or more signers, extra attributes, extra certificates) parses back with the same content, certificates and signer, and verifies; changing the content, the signed attributes, a signature or the signer's certificate makes Verify fail, and a message without signers never verifies. Signed attributes read back equal the ones supplied. Messages of other producers (RSA and ECDSA, SHA-1 and SHA-256 digests, with and without signed attributes) are judged the same way.",
 ["inputs"],
 "For all contents, keys, signer counts, attributes and single corruptions.",
 "Tests sign one or two literals and check fixed fixtures.",
 ["fullsailor/pkcs7/pkcs7.go"],
 [("sign", "NewSignedData, AddSigner, Detach, Finish"), ("verify", "Parse, PKCS7.Verify")], "pkcs7 API results")

prop("C20", "Certificate selection and description are faithful",
 "The certificate picked from a list of chains is the leaf of one of the given chains, none of the leaves has a stronger-ranked signature algorithm, and the choice does not depend on the order of chains when algorithms differ; the description's MD5, SHA-1 and SHA-256 are the hex digests of exactly that certificate's bytes and its serial, validity, algorithm, issuer and subject come from that certificate. An empty list yields no certificate.",
 ["inputs"],
 "For all lists of certificate chains (lengths, algorithms, validity windows, order permutations).",
 "One test covers a single certificate.",
 ["certinfo.go", "signingblock/utils.go"],
 [("selection", "PickBestApkCert"), ("description", "NewCertInfo, CertInfo.String, PkixNameToString")], "PickBestApkCert, NewCertInfo")

prop("C21", "Content digests are exactly those the signature schemes define",
 "For every content size the verifier accepts precisely the 1 MiB-chunk SHA-256/SHA-512 digest and the 4096-byte-page verity root hash (with size suffix) that the v2 and verity specifications define over the three protected sections, with the central-directory offset treated as the signing block's offset. Any other value, including ones computed with a neighbouring definition (other chunk size or count, chunks crossing section borders, missing padding, missing salt, missing length suffix, untreated offset) is rejected.",
 ["inputs"],
 "For all section lengths, in particular around every multiple of the chunk size, page size and verity tree level boundary, and all digest kinds.",
 "Corpus files are small and of a few sizes; digest errors show only at boundaries of chunk, page or tree level.",
 ["signingblock/signingblock.go", "signingblock/verity.go", "signingblock/datasource.go"],
 [("chunked digest", "computeOneMbChunkContentDigests"), ("verity digest", "verityTreeBuilder, computeVerityContentDigest")], V)

prop("C22", "JAR manifest parsing is layout-independent and preserves signed bytes",
 "Re-laying out MANIFEST.MF or an .SF file without changing its meaning (line folding at any width, CR, LF or CRLF line ends, attribute name case, attribute order, extra attributes, extra blank lines between sections where the format allows them), with the digests computed over the new bytes, leaves the verdict accepted. Header names with invalid characters or over 70 bytes, missing ': ' separators, sections that do not start with Name, NUL bytes, continuation lines with nothing to continue (after an empty line) and duplicate sections in MANIFEST.MF are rejected.",
 ["inputs"],
 "For all manifests and all such re-layouts and malformations.",
 "Tests use manifests as one or two tools wrote them.",
 ["manifest.go", "schemev1.go"],
 [("parser", "parseManifest, readHeader")], V)

prop("C23", "With several signers every one must verify, up to ten",
 "An APK with n signers (v2 or v1) is accepted with all n chains if n <= 10 and every signer is individually valid, and is rejected if n > 10 or if any one of the signers is invalid, wherever it stands in the list; v3 signers likewise must all be valid. For v1, the signers that cover one protected file must cover all of them, and every protected file must be covered.",
 ["inputs"],
 "For all signer counts 1..14, key mixes, and positions and kinds of the single invalid signer.",
 "Tests have two-signer files; position and count effects are not sampled.",
 ["signingblock/schemev2.go", "signingblock/schemev3.go", "signingblock/signingblock.go", "schemev1.go"],
 [("limits", "maxApkSigners"), ("error accumulation", "VerificationResult.Errors, schemeV1.verify")], V)

prop("C24", "Unknown signing-block content is ignored and handed back byte for byte",
 "Adding signing-block pairs with unknown ids of any size (empty included), verity padding, unknown signer attributes, or signatures and digests with unknown algorithm ids does not change the verdict, scheme or certificates of a valid APK. Every pair with an id the verifier does not consume is returned in ExtraBlocks with exactly its bytes, and consumed or padding pairs are not.",
 ["inputs"],
 "For all sets, orders, sizes and ids of extra pairs, attributes and algorithms, placed before, between and after the known ones.",
 "Few corpus files carry extra pairs and nothing compares their bytes.",
 ["signingblock/signingblock.go", "signingblock/signer.go", "signingblock/schemev2.go", "signingblock/schemev3.go"],
 [("pair walk", "findSignatureBlocks"), ("unknown algorithms", "signerContext.parseSignatures")], V + ", SigningBlockResult.ExtraBlocks")

prop("C25", "The signed sections are located correctly in every ZIP layout",
 "For every ZIP comment length (0..65535) and content, including comments holding end-of-central-directory magic bytes that are not a consistent record, and every gap-free layout of files up to 4 GiB, the signing block is found and verified; a signing block with mismatched or out-of-range sizes, wrong magic, malformed pairs, a central directory not immediately followed by its end record, or a ZIP64 locator is never used, so an APK with no other valid signature is rejected.",
 ["inputs"],
 "For all comment lengths and contents, central directory sizes and corruptions of the location fields.",
 "Tests use archives without comments or with one fixed comment.",
 ["signingblock/signingblock.go"],
 [("EOCD search", "findEocd, findEocdMaxCommentSize"), ("block location", "findApkSigningBlock, isZip64")], V)

prop("C26", "BER-encoded PKCS#7 is read the same as its DER form",
 "Re-encoding a DER PKCS#7 SignedData in BER (indefinite lengths at any nesting level, non-minimal length octets, trailing bytes after the message) leaves everything the package reports (content, certificates, signers, attributes, verification outcome) unchanged. Malformed encodings (truncated anywhere, overlong length fields, primitive elements with indefinite length, children overrunning their parent) are rejected.",
 ["inputs"],
 "For all messages and all BER re-encodings and truncations of them.",
 "The BER tests are five literals.",
 ["fullsailor/pkcs7/ber.go", "fullsailor/pkcs7/pkcs7.go"],
 [("transcoder", "ber2der, readObject"), ("parser", "pkcs7.Parse")], "pkcs7.Parse results")

prop("C27", "PKCS#7 encryption round-trips for every recipient and content",
 "Content of any length encrypted to one or more recipients (DES-CBC or AES-128-GCM) decrypts to the same bytes with each recipient's certificate and key, and with a certificate that is not a recipient it fails with an error; every message is encrypted under a fresh key and IV, and the caller's buffers are left alone. Messages of other producers (DES, Triple-DES and AES in CBC mode, content in one or several parts) decrypt exactly when key, IV, length and padding are right. Modified ciphertext never crashes, and under AES-GCM it is always rejected.",
 ["inputs"],
 "For all content lengths, recipient sets, algorithms, and ciphertext corruptions.",
 "Tests use one literal and one or two recipients.",
 ["fullsailor/pkcs7/pkcs7.go"],
 [("encrypt", "Encrypt, encryptDESCBC, encryptAES128GCM"), ("decrypt", "PKCS7.Decrypt, unpad")], "pkcs7.Encrypt / Decrypt results")

prop("C28", "Hostile PKCS#7, ASN.1 and X.509 bytes never crash the parsers",
 "For every byte sequence, PKCS#7 parsing, verification and decryption, lenient ASN.1 decoding and lenient certificate and key parsing return a value or an error: they never panic, exhaust the stack, loop, or allocate out of proportion to the input.",
 ["inputs"],
 "For all inputs: arbitrary bytes, truncations, length/tag/count mutations, deep nesting, and element-level mutations of valid messages.",
 "These parsers see attacker-supplied bytes; tests feed valid fixtures and a few literals.",
 ["fullsailor/pkcs7/ber.go", "fullsailor/pkcs7/pkcs7.go", "internal/asn1andr/asn1.go", "internal/x509andr/x509.go"],
 [("untrusted parsing", "pkcs7.Parse, Verify, Decrypt, asn1andr.Unmarshal, x509andr.Parse*")], "process outcome of the calls")

prop("C29", "v1 enforces the digests the platforms in the SDK range would check",
 "For each v1 manifest entry and signature-file section, two kinds of digest count. If the requested SDK range reaches 18 or later, the strongest supported digest present (SHA-512, SHA-384, SHA-256, SHA-1) counts; if it begins below 18, the digests named by Digest-Algorithms count that are present (SHA1 by default; SHA-384/512 only if the range begins at 9 or later). A wrong or undecodable value in a digest that counts makes the entry invalid, in another one it does not, and an entry without any digest that counts is invalid. An invalid whole-manifest digest falls back to the sections of the signature file, an invalid main-attributes digest or section makes verification fail, and absent main-attributes digests do not.",
 ["inputs", "configurations"],
 "For all subsets of digests present, right or wrong values per digest, Digest-Algorithms lists, entry kinds (manifest entries, .SF entries, whole-manifest digest) and SDK ranges around 9 and 18.",
 "Corpus files cover a few digest sets at a few ranges.",
 ["schemev1.go"],
 [("digest selection", "schemeV1.getDigestsToVerify, verifyManifestEntry")], V)

prop("C30", "Key and certificate codecs of the lenient X.509 package round-trip",
 "RSA, EC, DSA and PKCS#8 keys, certificates, certificate requests, CRLs and password-encrypted PEM blocks that the lenient X.509 package produces are accepted by Go's crypto/x509 with equal values and vice versa, for every key and attribute combination. Signature checks and chain verification of freshly made certificates agree with crypto/x509, for valid and for altered certificates, and certificate pools filled from PEM text hold the same certificates as the standard library's.",
 ["inputs"],
 "For all keys of the supported types, names, extensions, passwords and ciphers, and single alterations of certificates.",
 "Unit tests are literals copied from the Go source tree.",
 ["internal/x509andr/x509.go", "internal/x509andr/pkcs1.go", "internal/x509andr/pkcs8.go", "internal/x509andr/sec1.go", "internal/x509andr/pem_decrypt.go", "internal/x509andr/verify.go"],
 [("codecs", "Marshal*/Parse* of x509andr"), ("chain building", "Certificate.Verify, CheckSignatureFrom")], "x509andr API results")

prop("C31", "What verifies for a range of platforms verifies for each platform in it",
 "If an APK verifies for an SDK range, it also verifies for every single platform of that range (and v1 or v2 verdicts name the same signers there). Excepted are platforms for which the range's verdict is documented or known to be decided by something they do not use: 24-27 when v3 or v3.1 decided, 28 and later when v2 decided as fallback, 33 up to the first platform of the rotation when v3.1 decided, those below 18 when the range reaches 18 or later, and those from 9 when the range begins below 9 (digest selection).",
 ["inputs", "configurations"],
 "For all APKs that verify for some range: every scheme mix with valid and damaged parts, manifests, digest sets, several signers, rotations, DEX prefixes; and every platform of the range.",
 "Tests verify each sample for one range and never compare verdicts of two ranges.",
 ["apkverifier.go", "schemev1.go", "signingblock/signingblock.go", "signingblock/schemev3.go", "signingblock/schemev31.go"],
 [("range semantics", "VerifyWithSdkVersionReader"), ("per-scheme clamping", "schemeV3.finalizeResult, schemeV31.verify"), ("v1 range rules", "schemeV1.verifySignature, getDigestsToVerify")], V)

prop("C32", "Calls release what they opened and leave the caller's things alone",
 "Every verification and extraction call, by path or reader, on any input and however it ends, closes the files and ends the goroutines it started, writes or changes no files, and neither closes nor spoils the caller's reader or ZipReader.",
 ["inputs", "histories"],
 "For all entry points, valid, damaged, cut and arbitrary inputs, missing files and directories, and sequences of such calls in one process.",
 "Tests end with the process and do not look at descriptors; most error paths are not run at all.",
 ["apkverifier.go", "signingblock/signingblock.go", "schemev1.go"],
 [("files opened by path", "VerifyWithSdkVersion, ExtractCerts, signingblock.VerifySigningBlock, signingblock.ExtractCerts"), ("the caller's ZipReader", "optionalZip parameters")], "open descriptors, goroutines and files after the call")

prop("C33", "The v1 verdict does not depend on how the ZIP is packed",
 "For an APK without signing block, verdict, scheme and signer certificates are functions of the files in it: they stay the same when the same files are packed in another order (META-INF files among themselves excepted), stored or deflated, with data descriptors, extra fields, comments, other times, attributes, gaps or alignment, another order of the central directory or bytes before the first entry that are no DEX header, and when unsigned files and directories of META-INF that are no signature files are added.",
 ["inputs", "configurations"],
 "For all v1-only APKs, valid and damaged, and all such packings of their files, at every SDK range.",
 "Tests verify each sample in the one packing it has.",
 ["schemev1.go", "apkverifier.go", "manifest.go"],
 [("files read from the ZIP", "verifySchemeV1, schemeV1.verify, parseManifest"), ("magic of the file", "VerifyWithSdkVersionReader")], V)

prop("C34", "Results of the entry points agree with each other and with themselves",
 "For every APK and range, the top-level call reports scheme, certificates and errors as the signing-block call does for the same range: an error of the signing block (other than that there is none to use) rejects the APK, a block that verifies decides from SDK 24 on and names the signers, and extraction for the range names the same ones. In every result the error returned is the last of its list, ContainsErrors and GetLastError fit the list, accepted means at least one signer, every chain has a certificate, v3.1 comes with the result of v3, lineages belong to v3 and newer, and the magic is that of the file.",
 ["inputs", "configurations"],
 "For all APKs of every scheme mix with stamps and frosting, valid, damaged in structure or bytes, and all ranges.",
 "Tests call one entry point per sample and look at one or two fields of the result.",
 ["apkverifier.go", "signingblock/signingblock.go", "signingblock/verificationresult.go", "signingblock/schemev31.go"],
 [("top level", "VerifyWithSdkVersionReader"), ("signing block", "VerifySigningBlockReader, ExtractCertsReader"), ("results", "VerificationResult")], "all fields of the results")

prop("C35", "Printed forms name values unambiguously and completely",
 "Different API levels, signature algorithms and block ids have different names (values without a name included), capability flags are listed one by one, exactly those set (the sign bit excepted), and the description of a certificate and the dump of a lineage node contain digest, validity, names, algorithms, flags and signature of what they describe. A dump that cannot be written completely is reported and what was written is its beginning.",
 ["inputs", "fault_sequences"],
 "For all values of the types, known, neighbouring and unknown, all certificates and nodes, and all positions where the writer fails.",
 "Tests print nothing.",
 ["apilevel/levels.go", "signingblock/signingblock.go", "signingblock/schemev3lineage.go", "signingblock/utils.go", "certinfo.go"],
 [("names", "apilevel.String, SignatureAlgorithm.String, BlockId.String, LineageCertCaps.String"), ("dumps", "V3LineageSigningCertificateNode.Dump, CertInfo.String")], "the strings and what reaches the writer")

prop("C36", "The verdict on a signing block is exactly that of the scheme rules",
 "However signers, records, ranges, lineages, attributes, algorithms and encodings of APK Signature Scheme v2, v3 and v3.1 are combined in a signing block, the block is accepted for a range of SDK versions exactly if the published rules of the schemes accept it for that range, and then with the scheme, the signers in their order, and the lineage that the rules give; a file without a usable block is told from one with a bad signature. (Left open: the same scheme's pair twice in a block, keys and certificates that only a lenient parser reads, superfluous data in DSA and ECDSA signatures, v2 beside a broken v3.1 for ranges that begin before 28, v3.1 records only for levels after the range, malformed weaker signatures.)",
 ["inputs"],
 "For all signing blocks and ranges.",
 "Tests hold a few dozen APKs with one property each; rules interact in combinations of several signers, ranges, attributes and oddities.",
 ["signingblock/signingblock.go", "signingblock/signer.go", "signingblock/schemev2.go", "signingblock/schemev3.go", "signingblock/schemev31.go", "signingblock/schemev3lineage.go", "signingblock/utils.go"],
 [("blocks", "VerifySigningBlockReader"), ("schemes", "schemeV2, schemeV3, schemeV31 (parse, verify, finalizeResult)"), ("lineage", "V3SigningLineage")], "results of signingblock.VerifySigningBlockReader")
prop("C37", "The verdict on JAR signatures is exactly that of Android's rules",
 "However manifests, signature files, signature block messages and files of a JAR-signed APK are combined, with or without a signing block beside them, the APK is accepted for a range of SDK versions exactly if Android's rules accept it (each signature valid over its signature file, signature files cover the manifest by a whole-file or by section digests, the manifest covers every file outside META-INF, the same signers for every file, no signs of a stripped newer scheme, the policies on sandbox and target versions), and then with the scheme and the signers' chains that the rules give. (Left open: ZIP files that readers take differently, mixed CR and LF line ends, messages beyond BER with simple strings, names written in several ways, digests of unknown algorithms, repeated signed attributes, one malformed SignerInfo beside a valid one, the same signers signing different files in different numbers.)",
 ["inputs"],
 "For all JAR-signed APKs and ranges.",
 "Tests hold a few JAR-signed files; rules interact in combinations of sections, digests, signers and oddities.",
 ["schemev1.go", "manifest.go", "apkverifier.go", "fullsailor/pkcs7/pkcs7.go"],
 [("jar", "verifySchemeV1, schemeV1.verify, verifyMainManifest, verifySignature"), ("manifests", "parseManifest"), ("messages", "pkcs7.Parse")], "results of VerifyWithSdkVersionReader")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
