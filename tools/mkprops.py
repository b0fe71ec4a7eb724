#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (committed)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

SB="signingblock/"
COMMON="The 88 runnable tests never verify an APK (the APK tests need an apksig checkout and are skipped); "

p("C01","An accepted v2/v3/v3.1 APK is byte-for-byte what its signer digested",
  "If an APK is accepted through signature scheme v2, v3 or v3.1, every byte before the APK Signing Block, every byte of the ZIP Central Directory and every byte of the End of Central Directory record (its central-directory offset alone excepted) is exactly what the accepted signers digested. Changing, inserting, deleting or moving any of those bytes after signing makes verification fail, for each digest kind (1 MB-chunked SHA-256, chunked SHA-512, verity SHA-256) and for a v3.1 block just as for v2 and v3.",
  ["inputs"],"every protected byte position of every section, for every digest kind, scheme and section-size class",
  COMMON+"even enabled they check one or two hand-made corruptions, not every position, chunk and section.",
  [SB+"signingblock.go",SB+"datasource.go",SB+"verity.go",SB+"schemev31.go"],
  [("content digest comparison",SB+"signingblock.go verifyIntegrity"),("1MB chunk digests",SB+"signingblock.go computeOneMbChunkContentDigests"),("verity tree",SB+"verity.go"),("v3.1 digests",SB+"schemev31.go parseSigners")],
  ["apkverifier.VerifyWithSdkVersionReader","signingblock.VerifySigningBlockReader"])

p("C02","Correct content digests are accepted for every section layout",
  "For every size of the three protected sections (empty, partial, exact and one-off multiples of the 1 MB chunk and the 4096-byte verity block, one or several verity tree levels, any ZIP comment length) an APK whose block carries the digest defined by the APK Signature Scheme specification verifies. Chunk boundaries never span sections for chunked digests, and the verity digest is computed over their concatenation with zero padding, a zero salt, and the total length appended. (A central directory of zero bytes is outside: Android rejects such a file.)",
  ["inputs"],"all triples of section-size classes around the chunk and tree boundaries, for all three digest kinds",
  COMMON+"no test computes a digest for chosen section sizes at all.",
  [SB+"signingblock.go",SB+"datasource.go",SB+"verity.go"],
  [("chunking",SB+"signingblock.go computeOneMbChunkContentDigests"),("tree levels",SB+"verity.go generateTreeRootHash"),("section concatenation",SB+"datasource.go dataSourceChained.writeTo")],
  ["signingblock.VerifySigningBlockReader"])

p("C03","A v2/v3/v3.1 signer is accepted only if its record is authentic and consistent",
  "A signer of a v2, v3 or v3.1 block contributes to an accepted result only if its strongest supported signature verifies over its exact signed data with the public key in the record, that key is the key of its first certificate, the ordered lists of signature and digest algorithms are identical, and signers using the same digest kind agree on the digest. An APK with any signer for which this fails, with no signer, without a supported algorithm or with more than ten v2 signers is rejected; when accepted, the reported certificate chains are exactly the signers' certificates in file order.",
  ["inputs"],"all signer records over every supported algorithm, 0..12 signers, and every combination of up to two deviations (and every byte) of the record",
  COMMON+"sample APKs hold one deviation each; no test covers pairs of deviations or positions within the record.",
  [SB+"signer.go",SB+"schemev2.go",SB+"schemev3.go",SB+"utils.go"],
  [("signature check",SB+"utils.go verifySignature"),("best algorithm",SB+"signer.go parseSignatures/compareAlgos"),("key/certificate binding",SB+"signer.go parseCertificates"),("digest list binding",SB+"signer.go parseDigests"),("signer limit",SB+"schemev2.go parseSigners")],
  ["apkverifier.VerifyWithSdkVersionReader","signingblock.VerificationResult.Certs"])

p("C04","The scheme that decides is the one the requested Android versions would use",
  "For every requested SDK interval and every combination of present, absent, valid and invalid v1, v2, v3 and v3.1 signatures, the verdict, reported scheme id and reported certificates follow Android's rules (of several blocks of the same scheme the first counts): schemes newer than the maximum SDK are ignored, the newest remaining scheme decides, a broken newest scheme is fatal, except that a broken v3 falls back to v2 when SDKs below 28 are requested. When SDKs below 24 are requested the v1 signature must be valid as well, and certificates of a scheme attempt that failed are never reported as the signer of an accepted APK.",
  ["configurations","inputs"],"all (minSdk, maxSdk, manifest minSdk) classes around every API boundary x all validity combinations of the four schemes",
  COMMON+"the skipped suite fixes a few (APK, SDK) pairs; the full decision table is never enumerated.",
  ["apkverifier.go",SB+"signingblock.go"],
  [("scheme choice",SB+"signingblock.go pickScheme"),("v3 to v2 fallback",SB+"signingblock.go VerifySigningBlockReaderWithZip"),("v1 requirement","apkverifier.go VerifyWithSdkVersionReader")],
  ["apkverifier.Result"])

p("C05","Removing a stronger signature never yields an accepted weaker one",
  "If an APK was signed with several schemes and the signer recorded that fact (X-Android-APK-Signed listing 2 or 3 in a v1 signature file, the v2 stripping-protection attribute, the v3 rotation-min-sdk attribute), then removing, renaming or hiding any of the stronger signatures, or the whole signing block, makes verification fail whenever the requested SDK range includes a version that would have used the removed signature and no still stronger intact signature decides. Untouched multi-scheme APKs and ranges that never use the removed scheme stay accepted.",
  ["inputs","histories"],"all sequences of strip/rename/relocate/truncate attacker operations up to depth 3 on every multi-scheme signing combination, for all SDK classes",
  COMMON+"the skipped suite has three stripped samples; sequences of attacker operations are not explored.",
  ["schemev1.go",SB+"schemev2.go",SB+"schemev3.go",SB+"schemev31.go",SB+"signingblock.go"],
  [("X-Android-APK-Signed","schemev1.go verify"),("stripping protection attribute",SB+"schemev2.go verifySigner"),("rotation-min-sdk attribute",SB+"schemev3.go verifySigner")],
  ["apkverifier.VerifyWithSdkVersionReader"])

p("C06","v3 and v3.1 signers must cover the requested SDK range without gaps or overlaps",
  "A v3 APK is accepted only if each signer's SDK range is well formed and identical in the signed and unsigned parts of its record, the ranges are contiguous without gap or overlap, and together they cover the requested range from max(28, minSdk) to maxSdk. With a v3.1 block the v3.1 signers must reach maxSdk, the v3 signers must cover everything below the first v3.1 SDK, and the v3 rotation-min-sdk attribute must agree with the v3.1 block.",
  ["inputs","configurations"],"all assignments of signed and unsigned SDK ranges over boundary values for up to 3 v3 and 2 v3.1 signers, in every order, x all requested ranges",
  COMMON+"ranges are only exercised by a handful of fixed sample APKs.",
  [SB+"schemev3.go",SB+"schemev31.go"],
  [("range consolidation",SB+"schemev3.go finalizeResult"),("signed/unsigned comparison",SB+"schemev3.go verifySigner"),("v3.1 split",SB+"schemev31.go")],
  ["signingblock.VerifySigningBlockReader"],
  [("signers","SDK ranges collected from a block",SB+"schemev3.go schemeV3.signers")])

p("C07","A reported signing lineage is an authentic chain ending in the signer",
  "A signing lineage is reported, and the APK accepted, only if every certificate after the first is signed by its predecessor with the algorithm the predecessor declared, the algorithm is repeated inside the signed part, certificates are unique, the lineage version is known, and the last certificate is the signer's. Across signers of increasing SDK range lineages never shrink and are prefixes of one another, and the reported lineage is the longest one with its nodes, flags (also as named) and algorithms exactly as encoded, and the SDK from which all its algorithms are supported.",
  ["inputs"],"all lineages of 0..4 nodes with every single and pair of deviations, for 1..3 signers and every prefix relation between their lineages",
  COMMON+"lineages are only exercised by fixed sample APKs.",
  [SB+"schemev3.go",SB+"schemev3lineage.go"],
  [("node verification",SB+"schemev3.go readSigningCertificateLineage"),("consolidation",SB+"schemev3.go consolidateLineages"),("signer membership",SB+"schemev3lineage.go getSubLineage")],
  ["signingblock.VerificationResult.SigningLineage"])

p("C08","An accepted v1 APK contains exactly the entries its signers signed",
  "If an APK is accepted through the v1 (JAR) scheme, every ZIP entry other than directories and META-INF files - AndroidManifest.xml included - is listed in the JAR manifest with a digest matching its content and is listed in the signature file of every reported signer, and every manifest entry exists in the archive. Adding, removing, renaming or altering any such entry, or making its signer set differ from the other entries', makes verification fail, and the certificates reported are those of the signature files covering the entries. (Archives with several entries of one name, or of names equal after path cleaning, are a known limitation of the ZIP library and excluded.)",
  ["inputs","histories"],"all attacker operation sequences up to depth 2 (add, remove, rename, modify, recompress, mark as directory, re-digest, add signer) over entries, and every byte of every protected file",
  COMMON+"corrupted-entry samples cover one entry each.",
  ["schemev1.go","manifest.go"],
  [("entry coverage","schemev1.go verifyMainManifest"),("entry digest","schemev1.go verifyFileHash"),("signer consistency","schemev1.go certChainsMatch")],
  ["apkverifier.VerifyWithSdkVersionReader"])

p("C09","A v1 signer is accepted only with a valid PKCS#7 signature by its certificate",
  "A v1 signature file counts as signed only if a SignerInfo of its block verifies under the certificate that SignerInfo names by issuer and serial, over the signature file itself or, when signed attributes exist, over the attributes whose message digest equals the signature file's digest (and whose content type matches, from SDK 24). Supported digest/key algorithm combinations (RSA and ECDSA with SHA-1/224/256/384/512, DSA with SHA-1/224/256) are accepted, everything else is rejected (RSA with MD5 without signed attributes, which old Androids took, may be accepted), only the first SignerInfo counts below SDK 24, and the reported chain starts with the verifying certificate followed by its issuers found in the block.",
  ["inputs"],"all digest x signature algorithm x key combinations, with and without signed attributes, all single and pair deviations of the block, every byte of it, and all certificate-pool orders and issuer graphs of up to 4 certificates",
  COMMON+"each sample APK fixes one block.",
  ["schemev1.go","fullsailor/pkcs7/pkcs7.go","fullsailor/pkcs7/ber.go"],
  [("SignerInfo verification","schemev1.go verifySignature"),("primitive check","schemev1.go checkSignature"),("algorithm table","schemev1.go oidToAlgo"),("chain building","schemev1.go verifySignature tail"),("canonical names","schemev1.go pkixCanonicalSeq")],
  ["apkverifier.VerifyWithSdkVersionReader Result.SignerCerts"])

p("C10","v1 manifest and entry digests are the ones each requested Android version checks",
  "For every SDK range and every set of digest attributes, the digests that decide are those the Android versions in the range would check: below SDK 18 every known one listed in Digest-Algorithms (default SHA and SHA1; unknown names are ignored), from SDK 18 the strongest of SHA-512, SHA-384, SHA-256 and SHA1; if none of them exists or any of them is wrong, the attribute set does not verify. A signature file is bound to the manifest by a matching whole-manifest digest or else by a matching digest of every section it lists, and a wrong main-attributes digest is always fatal; signature files without Signature-Version count for nothing.",
  ["configurations","inputs"],"all subsets and correct/wrong combinations of digest attributes x Digest-Algorithms values x SDK classes, at all three levels (main attributes, whole manifest, sections) and for entry digests",
  COMMON+"a few samples with fixed digests exist.",
  ["schemev1.go"],
  [("digest selection","schemev1.go getDigestsToVerify"),("signature file checks","schemev1.go verify")],
  ["apkverifier.VerifyWithSdkVersionReader"])

p("C11","Platform policies on otherwise valid signatures are enforced",
  "An otherwise valid v1-only APK is rejected when the requested range reaches SDK 26 and the manifest's target sandbox version is above 1, or when its target SDK is at least 30 and within the requested maximum. An otherwise valid v1-verified file that starts with the DEX magic is reported with the dedicated mixed DEX/APK error and never as valid; when no minimum SDK is requested the manifest's minimum applies, and an inverted SDK range is an error.",
  ["configurations","inputs"],"all combinations of sandbox version, target and minimum SDK (absent, malformed, boundary values), prefix bytes, signing schemes and requested ranges",
  COMMON+"only a few fixed manifests and no SDK sweep.",
  ["apkverifier.go"],
  [("sandbox and target rules","apkverifier.go VerifyWithSdkVersionReader"),("manifest attributes","apkverifier.go getManifestInfo"),("Janus rule","apkverifier.go dexHeaderMagic")],
  ["apkverifier.VerifyWithSdkVersionReader","apkverifier.ErrMixedDexApkFile"])

p("C12","No input makes the verifier panic, hang or exhaust memory",
  "Whatever bytes the file contains, verification, certificate extraction, PKCS#7 parsing and verification, BER conversion and certificate parsing return a result or an error; they never panic, never loop forever and never use stack or memory out of proportion to the input (to its decompressed size where entries are compressed). In particular every malformed length, count, offset, algorithm id, key type and nesting in the signing block, lineage, stamp, frosting, JAR manifest and PKCS#7 structures is answered with an error or ignored.",
  ["inputs"],"every byte position of small signed files of every scheme x all 256 values, every truncation, every length field at boundary values, every algorithm/key type mismatch, deep nesting",
  "The existing fuzz-like tests feed a few fixed malformed byte strings to the ASN.1 decoder; the verifier entry points see none.",
  ["apkverifier.go","schemev1.go","manifest.go",SB+"utils.go",SB+"signer.go",SB+"sourcestamp.go",SB+"frosting.go","fullsailor/pkcs7/ber.go","fullsailor/pkcs7/pkcs7.go","internal/asn1andr/asn1.go"],
  [("length checks",SB+"utils.go getLenghtPrefixedSlice"),("BER conversion","fullsailor/pkcs7/ber.go"),("frosting bounds",SB+"frosting.go parseFrostingBlock")],
  ["apkverifier.VerifyReader","apkverifier.ExtractCertsReader","pkcs7.Parse"])

p("C13","I/O faults never turn into acceptance, and short reads change nothing",
  "If the underlying reader fails at any operation during verification, the outcome is either an error or exactly the outcome of the fault-free run: a read fault is never mistaken for a missing signing block or an absent file in a way that accepts what would have been rejected or reports other signers or a weaker scheme. Readers that deliver data in arbitrarily short pieces yield exactly the same result as readers that deliver it whole. (An early end of file is a shorter file, not a fault; the reader inside an archive the caller has opened is the caller's.)",
  ["fault_sequences"],"every reader operation of a verification as a single fault point (transient and permanent, on read, read-at and seek), pairs of faults, and short-read patterns, on valid and invalid APKs of every scheme",
  "No test uses a failing or short-reading reader.",
  ["apkverifier.go",SB+"signingblock.go",SB+"datasource.go",SB+"frosting.go"],
  [("error propagation",SB+"signingblock.go findSignatureBlocks/IsSigningBlockNotFoundError"),("full reads",SB+"signingblock.go io.ReadFull")],
  ["apkverifier.VerifyWithSdkVersionReader"])

p("C14","Verification is deterministic, repeatable and safe to run concurrently",
  "Verifying the same bytes with the same parameters always gives the same verdict, scheme, certificates in the same order, lineage and stamp result - regardless of what was verified before in the process, of whether the caller passes an already opened archive, reuses it or verifies by path, and of how concurrent verifications of other files interleave. The input file is never modified and an archive passed by the caller stays open and usable.",
  ["schedules","histories"],"all interleavings (at reader-operation granularity, up to 2 preemptions) of two concurrent calls, all operation histories up to length 3, and repeated runs of multi-signer files",
  "Tests run single-threaded on fixed sequences and never compare repeated runs.",
  ["apkverifier.go","schemev1.go",SB+"signingblock.go","certinfo.go"],
  [("per-call state","apkverifier.go VerifyWithSdkVersionReader"),("file-order determinism","schemev1.go verifySchemeV1"),("zip reuse","apkverifier.go optionalZip")],
  ["apkverifier.VerifyReader","apkverifier.ExtractCertsReader"])

p("C15","A clean source stamp result means an authentic stamp bound to this APK",
  "A source stamp is reported without errors only if the stamp certificate's SHA-256 equals the stamp-cert-sha256 file, the stamp signature for the scheme that verified the APK (v3 for v3.1) covers exactly that scheme's content digests (for v1 the JAR manifest's SHA-256) and verifies under the stamp certificate with an algorithm usable on the requested SDKs, and its attributes are signed; the reported time and lineage come from those signed attributes and the lineage is an authentic chain ending in the stamp certificate. A stamp file without a stamp block, or any other defect, is reported as an error (a stamp block without the stamp file is only a warning: no errors, but no stamp is in force either), and no stamp, good or bad, ever changes whether the APK itself is accepted.",
  ["inputs","configurations"],"all stamps over schemes x algorithms x attributes with every single and pair of deviations and every byte of the stamp block, x SDK classes x base APK schemes",
  "The stamp tests need sample APKs that are not present (skipped), and hold one deviation each.",
  [SB+"sourcestamp.go"],
  [("certificate binding",SB+"sourcestamp.go VerifySourceV2Stamp"),("signature selection",SB+"sourcestamp.go filterSignaturesToVerify"),("digest encoding",SB+"sourcestamp.go getSignatureSchemeDigest"),("lineage",SB+"sourcestamp.go parseStampCertLineage")],
  ["signingblock.SourceStampResult"])

p("C16","A clean Play frosting result means Google's key signed this very file",
  "Frosting is reported without error only if an enabled metadata entry selects a known key, the signature at the same index verifies under that key over the signed part of the block, and the recorded SHA-256 equals the digest of the file before the signing block, the v2 block, the central directory and the relocated EOCD. Then the protobuf info and key hash reported are those signed; otherwise an error is reported, and in no case does frosting change whether the APK is accepted.",
  ["inputs"],"all frosting blocks with up to 3 metadata entries, every enabled/disabled/key-index pattern, varint widths, single and pair deviations, and every byte of the block and of the file",
  "No test covers frosting with a verifiable key.",
  [SB+"frosting.go",SB+"signingblock.go"],
  [("block parsing",SB+"frosting.go parseFrostingBlock"),("file digest",SB+"frosting.go verifyApk"),("key",SB+"frosting.go frostingPublicKeys")],
  ["signingblock.FrostingResult"],None,"the harness substitutes the compiled-in key literal at build time (go build -overlay), no source hook")

p("C17","The signing block is found exactly where Android finds it",
  "For every ZIP layout - any comment length and content, comments containing fake end-of-directory records, signing block padding, any order of ID-value pairs and unknown or empty pairs among them - the signing block is located through the end-of-central-directory record as Android does, all its pairs are read, and pairs it does not interpret are returned unchanged and have no influence on the verdict. A block with inconsistent header and footer sizes, a bad magic, a truncated or oversized pair, or in a ZIP64 archive is reported as not found, in which case only v1 can accept.",
  ["inputs"],"all permutations of up to 6 pairs, all comment-size classes 0..65535 with fake records at every alignment, every byte and boundary value of the framing fields",
  COMMON+"no test varies comments or pair order.",
  [SB+"signingblock.go"],
  [("EOCD search",SB+"signingblock.go findEocdMaxCommentSize"),("block framing",SB+"signingblock.go findApkSigningBlock"),("pairs",SB+"signingblock.go findSignatureBlocks")],
  ["signingblock.VerifySigningBlockReader","signingblock.VerificationResult.ExtraBlocks","signingblock.IsSigningBlockNotFoundError"])

p("C18","Extracted certificates agree with the certificates verification reports",
  "Whenever verification with unrestricted SDK bounds accepts an APK through its newest signature (for v1: when every signature file counts), certificate extraction without verification returns the same certificate chains in the same order and no error, for v1, v2, v3 and v3.1 APKs. Extraction does not depend on file content outside the signatures, never reports certificates of a weaker scheme when a signing block with a usable scheme exists, and reports an error when no signature exists or the block of the newest scheme cannot be parsed.",
  ["inputs"],"all scheme combinations, signer counts and rotation layouts of the other properties' spaces, plus content-damaged variants",
  COMMON+"extraction is not compared against verification.",
  ["apkverifier.go","schemev1.go",SB+"signingblock.go"],
  [("extraction","apkverifier.go ExtractCertsReader"),("v1 extraction","schemev1.go extractCertsSchemeV1")],
  ["apkverifier.ExtractCertsReader","signingblock.ExtractCertsReader"])

p("C19","The lenient ASN.1 decoder only adds documented leniency",
  "Every DER value the standard decoder accepts into the structures used for certificates, keys and signatures decodes to the same value with the Android-compatible decoder, and what the latter accepts beyond it is limited to its documented relaxations (non-minimal tag numbers, lengths and object id components, unusual characters in PrintableString; INTEGERs stay strict). Encoding and decoding round-trip, trailing data is returned, and BER encodings (indefinite and long-form lengths, the content OCTET STRING in chunks) of a PKCS#7 block parse to the same content as its DER encoding.",
  ["inputs"],"all encodings up to 4 bytes (5 thorough) for each target type, all TLV trees up to a depth and width bound, all single-byte edits of real certificates, all BER re-encodings of a block",
  "The ported unit tests list about a hundred fixed encodings.",
  ["internal/asn1andr/asn1.go","internal/asn1andr/common.go","internal/asn1andr/marshal.go","fullsailor/pkcs7/ber.go"],
  [("decoder","internal/asn1andr/asn1.go parseField"),("encoder","internal/asn1andr/marshal.go"),("BER to DER","fullsailor/pkcs7/ber.go")],
  ["asn1andr.Unmarshal","asn1andr.Marshal","pkcs7.Parse"])

p("C20","Certificates and certificate info describe the signing certificate faithfully",
  "A well-formed certificate with an RSA, DSA or ECDSA key that Go's standard parser accepts is parsed by the Android-compatible parser to the same raw bytes, key, names, serial, validity and (RSA, DSA or ECDSA) signature algorithm, and quirky but Android-accepted certificates (missing RSA parameters, non-minimal lengths, tags and object identifiers, negative RSA moduli) yield the same key material as their canonical form. Certificate info reports the hashes of the exact certificate bytes and its names, dates, serial and algorithm, and picking the best certificate returns one of the given leaf certificates, independent of the order in which signers are given.",
  ["inputs"],"all certificates over key type x name attributes x extensions x encoding quirks, every byte edit of each, all orders of up to 5 signers",
  "The ported x509 tests use fixed certificates and never compare with the standard parser or permute signers.",
  ["internal/x509andr/x509.go","certinfo.go",SB+"utils.go"],
  [("parser","internal/x509andr/x509.go parseCertificate"),("conversion","internal/x509andr/x509.go ParseCertificateForGo"),("info","certinfo.go Fill"),("choice","certinfo.go PickBestApkCert")],
  ["x509andr.ParseCertificateForGo","x509andr.ParsePKIXPublicKey","apkverifier.NewCertInfo","apkverifier.PickBestApkCert"])

p("C21","PKCS#7 sign-verify and encrypt-decrypt are inverse and tamper-evident",
  "A message signed with the PKCS#7 library by any number of signers parses and verifies with the same content and certificates, attached or detached, with any attributes besides the standard ones; changing the content, a signed attribute, the signature or the signer's key makes verification fail. An enveloped message decrypts to the original content for each listed recipient and each supported content cipher and length, and for nobody else; malformed padding or lengths are errors; neither operation changes the caller's data.",
  ["inputs"],"all signer counts 0..3 x key sizes x attributes x attached/detached, content lengths 0..64 x ciphers x recipients 1..3, every byte edit of the messages",
  "The unit tests round-trip one content for a few configurations.",
  ["fullsailor/pkcs7/pkcs7.go","fullsailor/pkcs7/x509.go","fullsailor/pkcs7/ber.go"],
  [("sign","fullsailor/pkcs7/pkcs7.go SignedData"),("verify","fullsailor/pkcs7/pkcs7.go Verify"),("envelope","fullsailor/pkcs7/pkcs7.go Encrypt/Decrypt")],
  ["pkcs7.NewSignedData","pkcs7.Parse","pkcs7.PKCS7.Verify","pkcs7.Encrypt","pkcs7.PKCS7.Decrypt"])

p("C22","JAR manifests read the same in every legal layout, and malformed ones are errors",
  "For every layout of a manifest or signature file - CR, LF or CRLF line ends, values and names folded over continuation lines at any position, sections in any order, extra blank lines, missing final line break, attribute names in any case - an entry's name and attributes are the unfolded logical values and its digest covers exactly the bytes of its section, so the verdict equals that for the plain layout. NUL bytes, unnamed sections, invalid attribute names, missing separators and, in the manifest, duplicate sections are errors, never silently skipped entries. (As on Android an unterminated last line is ignored and blank lines belong to the section before them.)",
  ["inputs"],"all manifests from a grammar of line ends, fold positions, section orders and defects up to a size bound",
  "No runnable test parses a manifest.",
  ["manifest.go","schemev1.go"],
  [("parser","manifest.go readHeader/parse"),("section bytes","manifest.go chunks")],
  ["apkverifier.VerifyWithSdkVersionReader on v1 APKs carrying the manifest"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
