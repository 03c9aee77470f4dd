"""Per property: deciding technique and level note for MANIFEST.json."""
G = "Property-based testing: "
TRUST = " Random search within the bounds DESIGN.md states; trusts the harness's own signer/encoder and Go's crypto library."
def n(technique, note): return (G + technique, note + TRUST)
NOTES = {
 "C01": n("an independent signer generates valid block-signed APKs; oracle: accepted, with the known scheme and signers", "All algorithms, signer counts, v2/v3/v3.1 mixes, section sizes and SDK ranges are drawn."),
 "C02": n("valid block-signed APKs are changed outside the signing block (drawn edits, and a bit at every position of small ones); oracle: rejected", "Edits by section, mixed digests of two APKs, every position of small APKs."),
 "C03": n("single-field corruptions of signer records, re-signed where the field is signed, structure damage, and a bit at every position of the records; oracle: rejected", "Every field of a record, plus length-prefix damage at each level."),
 "C04": n("an independent JAR signer generates v1 APKs (PKCS#7 DER/BER, layouts, digests); oracle: accepted with the known chains", "All key kinds, algorithm pairs, layouts and ranges relying on v1."),
 "C05": n("v1-signed APKs changed in entries, manifest, .SF or block, and at every position of small ones; oracle: rejected", "Two listed known findings about colliding ZIP entry names are outside this repository."),
 "C06": n("schemes mixed and stripped; oracle: table of what may decide", "Every mix, removed blocks, ranges."),
 "C07": n("cross product of scheme states, manifests and ranges; oracle: reference decision table", "Model-based: the table is written from Android's rules."),
 "C08": n("attacker records, certificates, SignerInfos and files are grafted into valid APKs; oracle: only identities that signed the content are reported", "Grafts at each place where identities are read."),
 "C09": n("drawn SDK ranges, rotation lineages and damage; oracle: reference rule for the selected signer and lineage", "Lineage damage re-signed where needed; every position of lineages."),
 "C10": n("valid stamps, broken stamps (fields, structure, every position); metamorphic relation: verdict with the block = verdict without; freely combined stamps judged by a reference implementation", "All scheme mixes and stamp algorithms."),
 "C11": n("valid and broken frosting (fields, sizes, every position) with keys installed through a build-tag hook; metamorphic relation on the verdict; freely combined blocks judged by a reference reader", "Keys of the real Play Store are not available: a tag-guarded hook supplies ours."),
 "C12": n("grammar-aware mutation fuzzing of APKs at every encoding level, damaged parts re-signed; oracle: no panic, bounded CPU time and allocation", "Crashes of the process are recognised and replayed."),
 "C13": n("stateful generation of call histories and concurrent schedules over a pool of APKs (race detector); oracle: each call equals a fresh one", "Histories of up to 14 calls, up to 8 goroutines; schedules are those the runtime produces."),
 "C14": n("differential: extraction against verification on generated and edited APKs", "All scheme mixes, multi-signer v1."),
 "C15": n("DEX prefixes, near misses and scheme mixes; oracle: reference policy", "Ranges around the limits."),
 "C16": n("fault injection: readers that fail at the n-th operation or read short; oracle: verdict of a faultless reader or an error", "Every operation of a run is a candidate fault point."),
 "C17": n("generated Go types and values; round trip and differential against encoding/asn1, metamorphic on the lenient encodings", "Nested types of drawn shape, up to three levels below the top."),
 "C18": n("generated certificates; differential against crypto/x509 field by field, metamorphic on the lenient encodings", "Own certificate encoder."),
 "C19": n("SignedData made by the package and by the harness, any element changed, oracle by construction; freely combined messages versus a reference CMS verifier", "All digest/signature pairs the package supports."),
 "C20": n("chains with known descriptions; permutation and reference-order relations", "Drawn sets of certificates and chains, in drawn order."),
 "C21": n("section sizes around the borders of chunks, pages and tree levels; oracle: reference digests accepted, neighbouring definitions rejected", "Up to three verity tree levels."),
 "C22": n("metamorphic re-layout of manifests and a grammar of malformed ones; oracle: reference parser", "Line endings, wraps, duplicate and oversize names."),
 "C23": n("1-20 signers, one broken at a drawn place; oracle: reference rule", "v1 coverage sets, v2 lists, v3 ranges."),
 "C24": n("unknown pairs, attributes, algorithms and padding inserted; oracle: same verdict, exact ExtraBlocks", "Positions and sizes are drawn."),
 "C25": n("ZIP comments up to 65535 bytes with fake end records, malformed structures; oracle: reference locator", "Structures are signed as a lenient reader would see them."),
 "C26": n("BER re-encodings of generated DER; oracle: same DER, malformed ones rejected", "Indefinite and long lengths, constructed strings."),
 "C27": n("encrypt/decrypt round trips, messages by an independent encoder; reference decryptor for damaged messages", "All content ciphers; wrong keys and recipients."),
 "C28": n("grammar-aware mutation fuzzing of the ASN.1, X.509 and PKCS#7 parsers; oracle: no panic, bounded CPU and allocation", "Parsed values are used further (verify, print, marshal)."),
 "C29": n("digest sets drawn per manifest section; oracle: reference rule of which digests a range checks", "Wrong, missing, unknown digests."),
 "C30": n("keys, PEM, certificates, CSRs and CRLs written by the package are read back; differential against crypto/x509", "Chains and host names against crypto/x509's Verify."),
 "C31": n("metamorphic: APKs from the other generators that verify for a range are verified for each platform of it alone", "Exceptions are those the statement lists."),
 "C32": n("stateful: sequences of calls on valid, damaged and arbitrary input; invariant over open files, goroutines, files on disk and the caller's readers", "Linux /proc is used to list descriptors; a leak that the garbage collector hides within a call is not seen."),
 "C33": n("metamorphic: the files of v1-only APKs from the other generators are packed anew; verdict and signers must not change", "Names the reader takes for the same are left out (known finding of duplicate entries)."),
 "C34": n("differential between entry points and invariants over every result; APKs from the other generators, a fifth mutated once more", "Ranges whose minimum comes from the manifest are compared at the top level only."),
 "C35": n("injectivity over drawn sets of values, a reference for capability lists, and fault injection into the writer", "Wording is not judged."),
 "C36": n("signing blocks freely combined from mostly well-signed parts, and the APKs of the other checks (a quarter mutated); oracle: a reference implementation of v2, v3 and v3.1 that judges the bytes", "The cases the reference leaves open are those the statement lists."),
 "C37": n("JAR-signed APKs freely combined from mostly right parts, and the APKs of the other checks (some mutated); oracle: a reference implementation of JAR verification and of the rules beside a signing block that judges the bytes", "The cases the reference leaves open are those the statement lists."),
}
