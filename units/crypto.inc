// ================= trusted: the RSA and Ed25519 crates =================
pub struct VBoxErr { e: u8 }
#[verifier::external_body]
pub struct VRsaPub { k: u8 }
#[verifier::external_body]
pub struct VRsaPrv { k: u8 }
#[verifier::external_body]
pub struct VEdKey { k: u8 }
#[verifier::external_body]
pub struct VEdPrv { k: u8 }
#[verifier::external_body]
pub struct VEdSig { k: u8 }
#[verifier::external_body]
pub struct VBigUint { k: u8 }
/// RSASSA-PKCS1-v1_5 with the given hash.
pub struct VPkcs { pub alg: HashAlgorithm }
/// RSASSA-PKCS1-v1_5-VERIFY (RFC 8017, 8.2.2) of a digest.
pub uninterp spec fn rsa_verifies(k: VRsaPub, alg: HashAlgorithm, digest: Seq<u8>, sig: Seq<u8>) -> bool;
/// Ed25519 verification (RFC 8032).
pub uninterp spec fn ed_verifies(k: VEdKey, msg: Seq<u8>, sig: Seq<u8>) -> bool;
/// A DER SubjectPublicKeyInfo or RSAPublicKey document; the 32 bytes of an Ed25519 key.
pub uninterp spec fn rsa_spki(b: Seq<u8>) -> Option<VRsaPub>;
pub uninterp spec fn rsa_pkcs1(b: Seq<u8>) -> Option<VRsaPub>;
pub uninterp spec fn ed_raw(b: Seq<u8>) -> Option<VEdKey>;
pub uninterp spec fn ed_spki(b: Seq<u8>) -> Option<VEdKey>;
/// Bits of the modulus.
pub uninterp spec fn rsa_bits(k: VRsaPub) -> nat;
pub uninterp spec fn rsa_signs(k: VRsaPrv, alg: HashAlgorithm, digest: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn ed_signs(k: VEdPrv, msg: Seq<u8>) -> Seq<u8>;
impl VBigUint {
    pub uninterp spec fn nbits(&self) -> nat;
    #[verifier::external_body]
    pub fn bits(&self) -> (r: usize) ensures r == self.nbits() { unimplemented!() }
}
impl VRsaPub {
    #[verifier::external_body]
    pub fn n(&self) -> (r: &VBigUint) ensures r.nbits() == rsa_bits(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn verify(&self, p: VPkcs, msg: &[u8], sig: &[u8]) -> (r: Result<(), VBoxErr>) ensures r is Ok <==> rsa_verifies(*self, p.alg, msg@, sig@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_public_key_der(b: &[u8]) -> (r: Result<Self, VBoxErr>) ensures match r { Ok(k) => rsa_spki(b@) == Some(k), Err(_) => rsa_spki(b@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn from_pkcs1_der(b: &[u8]) -> (r: Result<Self, VBoxErr>) ensures match r { Ok(k) => rsa_pkcs1(b@) == Some(k), Err(_) => rsa_pkcs1(b@) is None } { unimplemented!() }
}
impl VRsaPrv {
    #[verifier::external_body]
    pub fn sign(&self, p: VPkcs, msg: &[u8]) -> (r: Result<Vec<u8>, VBoxErr>) ensures match r { Ok(s) => rsa_signs(*self, p.alg, msg@) == Some(s@), Err(_) => rsa_signs(*self, p.alg, msg@) is None } { unimplemented!() }
}
impl VEdKey {
    #[verifier::external_body]
    pub fn verify(&self, msg: &[u8], sig: &VEdSig) -> (r: Result<(), VBoxErr>) ensures r is Ok <==> ed_verifies(*self, msg@, sig.b()) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_from(b: &[u8]) -> (r: Result<Self, VBoxErr>) ensures match r { Ok(k) => ed_raw(b@) == Some(k), Err(_) => ed_raw(b@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn from_public_key_der(b: &[u8]) -> (r: Result<Self, VBoxErr>) ensures match r { Ok(k) => ed_spki(b@) == Some(k), Err(_) => ed_spki(b@) is None } { unimplemented!() }
}
impl VEdSig {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: Result<Self, VBoxErr>) ensures match r { Ok(s) => s.b() == b@, Err(_) => b@.len() != 64 } { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bytes(&self) -> (r: VEdSig) ensures r.b() == self.b() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.b() { unimplemented!() }
}
impl VEdPrv {
    #[verifier::external_body]
    pub fn sign(&self, msg: &[u8]) -> (r: VEdSig) ensures r.b() == ed_signs(*self, msg@), ed_signs(*self, msg@).len() == 64 { unimplemented!() }
}
pub axiom fn axiom_ed_len(k: VEdKey, m: Seq<u8>, s: Seq<u8>) ensures ed_verifies(k, m, s) ==> s.len() == 64;
#[verifier::external_body]
pub fn v_digest(Ghost(alg): Ghost<HashAlgorithm>, b: &[u8]) -> (r: Box<[u8]>) ensures r@ == digest_of(alg, b@) { unimplemented!() }
// ---- end of trusted ----
pub mod crypto {
use super::*;
@@item crypto/mod.rs::VerificationError
@@end
@@item crypto/mod.rs::VerifyingKey
@replace RsaPublicKey => VRsaPub
@replace Ed25519VerifyingKey => VEdKey
@@end
@@item crypto/mod.rs::SigningKey
@replace RsaPrivateKey => VRsaPrv
@replace Ed25519SigningKey => VEdPrv
@@end
@@item crypto/mod.rs::SigningError
@@end
@@item crypto/rsa.rs::MIN_KEY_BITS
@replace cfg!(feature = "pre-rfc8301") => false
@@end
// ================= RFC 6376, 3.6.1 and 6.1.2 =================
/// The key that key data stand for.
pub open spec fn key_of(t: KeyType, b: Seq<u8>) -> Option<VerifyingKey> {
    match t {
        KeyType::Rsa => if rsa_spki(b) is Some { Some(VerifyingKey::Rsa(rsa_spki(b)->0)) } else if rsa_pkcs1(b) is Some { Some(VerifyingKey::Rsa(rsa_pkcs1(b)->0)) } else { None },
        KeyType::Ed25519 => if ed_raw(b) is Some { Some(VerifyingKey::Ed25519(ed_raw(b)->0)) } else if ed_spki(b) is Some { Some(VerifyingKey::Ed25519(ed_spki(b)->0)) } else { None },
    }
}
pub open spec fn bits_of(k: VerifyingKey) -> Option<nat> { match k { VerifyingKey::Rsa(k) => Some(rsa_bits(k)), VerifyingKey::Ed25519(_) => None } }
/// RFC 8301: verifiers MUST NOT accept RSA keys of less than 1024 bits.
pub open spec fn min_size_ok(k: VerifyingKey) -> bool { bits_of(k) matches Some(n) ==> n >= 1024 }
/// The signature is the key's over this digest.
pub open spec fn verifies(k: VerifyingKey, alg: HashAlgorithm, digest: Seq<u8>, sig: Seq<u8>) -> bool {
    match k { VerifyingKey::Rsa(k) => rsa_verifies(k, alg, digest, sig), VerifyingKey::Ed25519(k) => ed_verifies(k, digest, sig) }
}
@@fn crypto/hash.rs::digest
@ret r
@replace impl AsRef<[u8]> => &[u8]
@replace let hash = Sha256::digest(bytes); => let hash = v_digest(Ghost(HashAlgorithm::Sha256), bytes);
@replace let hash = Sha1::digest(bytes); => let hash = v_digest(Ghost(HashAlgorithm::Sha1), bytes);
@replace Box::from(&hash[..]) => hash
@spec
    ensures r@ == digest_of(alg, bytes@),
@@end
@@fn crypto/rsa.rs::read_rsa_public_key
@ret r
@replace Box<dyn Error + Send + Sync + 'static> => VBoxErr
@replace RsaPublicKey => VRsaPub
@replace let $i_k = $x.or_else(|e| { $y.map_err(|_| e) })? => let $i_k = (match $x { Ok(v_k) => v_k, Err(e) => match $y { Ok(v_k) => v_k, Err(_) => return Err(e) } })
@spec
    ensures match r { Ok(k) => key_of(KeyType::Rsa, key_data@) == Some(VerifyingKey::Rsa(k)), Err(_) => key_of(KeyType::Rsa, key_data@) is None },
@@end
@@fn crypto/rsa.rs::get_public_key_size
@ret r
@replace RsaPublicKey => VRsaPub
@spec
    ensures r == rsa_bits(*k),
@@end
@@fn crypto/rsa.rs::verify_rsa
@ret r
@replace Box<dyn Error + Send + Sync + 'static> => VBoxErr
@replace RsaPublicKey => VRsaPub
@replace Pkcs1v15Sign::new::<Sha256>() => VPkcs { alg: HashAlgorithm::Sha256 }
@replace Pkcs1v15Sign::new::<Sha1>() => VPkcs { alg: HashAlgorithm::Sha1 }
@spec
    ensures r is Ok <==> rsa_verifies(*public_key, hash_alg, msg@, signature_data@),
@@end
@@fn crypto/rsa.rs::sign_rsa
@ret r
@replace Box<dyn Error + Send + Sync + 'static> => VBoxErr
@replace RsaPrivateKey => VRsaPrv
@replace Pkcs1v15Sign::new::<Sha256>() => VPkcs { alg: HashAlgorithm::Sha256 }
@replace Pkcs1v15Sign::new::<Sha1>() => VPkcs { alg: HashAlgorithm::Sha1 }
@spec
    ensures match r { Ok(s) => rsa_signs(*private_key, hash_alg, msg@) == Some(s@), Err(_) => rsa_signs(*private_key, hash_alg, msg@) is None },
@@end
@@fn crypto/ed25519.rs::sign_ed25519
@ret r
@replace SigningKey => VEdPrv
@spec
    ensures r@ == ed_signs(*signing_key, msg@),
@@end
@@fn crypto/ed25519.rs::read_ed25519_verifying_key
@ret r
@replace Box<dyn Error + Send + Sync + 'static> => VBoxErr
@replace VerifyingKey => VEdKey
@replace let $i_k = $x.or_else(|e| { $y.map_err(|_| e) })? => let $i_k = (match $x { Ok(v_k) => v_k, Err(e) => match $y { Ok(v_k) => v_k, Err(_) => return Err(e) } })
@spec
    ensures match r { Ok(k) => key_of(KeyType::Ed25519, key_data@) == Some(VerifyingKey::Ed25519(k)), Err(_) => key_of(KeyType::Ed25519, key_data@) is None },
@@end
@@fn crypto/ed25519.rs::verify_ed25519
@ret r
@replace Box<dyn Error + Send + Sync + 'static> => VBoxErr
@replace VerifyingKey => VEdKey
@replace Signature => VEdSig
@spec
    ensures r is Ok <==> ed_verifies(*verifying_key, msg@, signature_data@),
@head
    proof { axiom_ed_len(*verifying_key, msg@, signature_data@); }
@@end
impl SigningKey {
@@fn crypto/mod.rs::SigningKey::key_type
@ret r
@spec
    ensures r == (match *self { SigningKey::Rsa(_) => KeyType::Rsa, SigningKey::Ed25519(_) => KeyType::Ed25519 }),
@@end
}
impl VerifyingKey {
@@fn crypto/mod.rs::VerifyingKey::key_size
@ret r
@replace self::rsa::get_public_key_size => get_public_key_size
@spec
    ensures match r { Some(n) => bits_of(*self) == Some(n as nat), None => bits_of(*self) is None },
@@end
@@fn crypto/mod.rs::VerifyingKey::validate_min_key_size
@ret r
@replace self::rsa::MIN_KEY_BITS => MIN_KEY_BITS
@spec
    ensures match r { Ok(_) => min_size_ok(*self), Err(e) => !min_size_ok(*self) && e is InsufficientKeySize },
@@end
@@fn crypto/mod.rs::VerifyingKey::from_key_data
@ret r
@replace Box<dyn Error + Send + Sync + 'static> => VBoxErr
@spec
    ensures match r { Ok(k) => key_of(key_type, key_data@) == Some(k), Err(_) => key_of(key_type, key_data@) is None },
@@end
}
} // mod crypto
