@@item signature.rs::ParseAlgorithmError
@@end
@@item signature.rs::SigningAlgorithm
@@end
impl Clone for SigningAlgorithm { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for SigningAlgorithm {}
@@item signature.rs::Canonicalization
@attr
#[derive(Clone, Copy)]
@@end
@@item signature.rs::DkimSignatureErrorKind
@@end
@@item signature.rs::DkimSignatureError
@@end
@@item signature.rs::DkimSignature
@@end
