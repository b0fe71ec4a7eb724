NA={}
GEN="Explores the real code exhaustively within the stated bounds and compares every execution with an independent reference model written from the Android documentation; trusts Go's standard crypto and the generators."
c("C03","stateless exhaustive exploration of signing-block constructions against a reference model",GEN)
c("C01","stateless exhaustive enumeration of post-signing byte edits, moves and section swaps on the real verifier",GEN)
c("C02","stateless exhaustive enumeration of section-size classes with an independently computed digest",GEN)
c("C04","explicit enumeration of the scheme-state x SDK-range decision table against a reference decision model",GEN)
c("C05","stateless exhaustive exploration of attacker operation histories against a reference decision model",GEN)
c("C06","exhaustive enumeration of SDK range assignments against a reference model",GEN)
c("C07","exhaustive enumeration of lineages with bounded deviations and every byte edit against a reference model",GEN)
c("C17","exhaustive enumeration of signing block framings, comments and pair sequences against a reference locator",GEN)
c("C08","stateless exhaustive exploration of attacker operation histories over v1 archives against a reference model",GEN)
c("C09","exhaustive enumeration of PKCS#7 signature blocks against a reference model",GEN)
c("C10","exhaustive enumeration of digest attribute sets and SDK ranges against a reference model",GEN)
c("C11","exhaustive enumeration of platform policy inputs against a reference decision model",GEN)
c("C18","exhaustive enumeration of signed APKs comparing certificate extraction with verification and a reference model",GEN)
c("C22","exhaustive enumeration of manifest layouts and edits against a reference parser",GEN)
c("C13","enumeration of every reader fault and short read of every run over a corpus of signed and attacked APKs",GEN,"fault_enumeration")
c("C14","controlled exploration of thread interleavings, map iteration orders, histories and call variants of the instrumented code",GEN)
c("C15","exhaustive enumeration of source stamps around correct ones against a reference model",GEN)
c("C16","exhaustive enumeration of frosting blocks, with the verification key replaced by one the check owns, against a reference parser",GEN)
c("C19","exhaustive enumeration of ASN.1 byte strings, structure edits and BER forms against the standard decoder of an independently normalised form",GEN)
c("C20","exhaustive enumeration of certificates, keys, names, extensions, edits and signer orders against the standard parser and a reference description",GEN)
c("C21","exhaustive enumeration of PKCS#7 messages, envelopes and tamperings against an independent signer and verifier",GEN)
c("C12","exhaustive enumeration of damaged structures, oversized lists and impossible keys, with processor time and allocation measured",GEN)
