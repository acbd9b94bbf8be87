na("E01", "Claims decode to what was encoded",
  "Every claim of every type converts to a tree entry and back without change, distinct claims have distinct entries, and its header flags, version, revocation nonce and expiration read back as set.",
  ["inputs"], "every claim value and header combination",
  "the tests round-trip a few values",
  ["core/claims/claim.go","core/claims/utils.go","core/claims/claimBasic.go"],
  [("entry encoding","core/claims")], ["claim entry","claim metadata"],
  "a pure function of one claim value: no schedule, clock, fault, I/O or second party takes part, so there is nothing to simulate (input generation alone would be another technique); the claim codec does run as real code inside I01-V04")
na("E02", "Identifiers are checksummed and bound to their genesis state",
  "Every identifier round-trips through its text and byte forms, any one altered byte is rejected by its checksum, and an identifier derived from a genesis state matches that state and no other.",
  ["inputs"], "every identifier and every alteration",
  "the tests use fixed vectors",
  ["core/id.go","core/genesis/genesis.go"],
  [("checksum","core/id.go"),("derivation from the genesis state","core/id.go: IdGenesisFromIdenState")], ["parse","format","derive"],
  "pure functions of their input without concurrency, time, I/O or faults; they run as real code in the issuer, holder and verifier simulations but are not decided by them")
na("E03", "Conversions between field elements, integers and text lose nothing",
  "Big integers, byte arrays, hexadecimal texts and field elements convert back and forth without loss, and values outside the field are refused.",
  ["inputs"], "every value",
  "the tests use a few values",
  ["common/common.go","crypto/hash.go","merkletree/utils.go"],
  [("conversions","common, crypto, merkletree/utils.go")], ["conversion results"],
  "pure functions of their input without concurrency, time, I/O or faults: not a simulation target")
