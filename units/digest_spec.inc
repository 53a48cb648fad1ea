// ---- trusted: digests ----
/// SHA-1 / SHA-256 (crates sha1, sha2).
pub uninterp spec fn digest_of(alg: HashAlgorithm, b: Seq<u8>) -> Seq<u8>;
