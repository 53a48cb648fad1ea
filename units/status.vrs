#![allow(unused)]
use vstd::prelude::*;
verus! {
@@item signature.rs::DkimSignatureErrorKind
@@end
@@item signature.rs::DkimSignatureError
@@end
@@item record.rs::DkimKeyRecordError
@@end
pub mod crypto {
@@item crypto/mod.rs::VerificationError
@@end
}
@@item verifier/mod.rs::PolicyError
@@end
@@item verifier/mod.rs::VerificationError
@@end
@@item verifier/mod.rs::VerificationStatus
@@end
@@item verifier/mod.rs::DkimResult
@@end
use VerificationError::*;

// ================= RFC 8601, section 2.7.1, as documented =================
/// The signature is there but says something contradictory, or lacks
/// something it must have: a definite defect.
pub open spec fn definite_signature_defect(k: DkimSignatureErrorKind) -> bool {
    ||| k is HistoricAlgorithm
    ||| k is EmptySignatureTag || k is EmptyBodyHashTag || k is EmptySignedHeadersTag
    ||| k is FromHeaderNotSigned || k is DomainMismatch || k is ExpirationNotAfterTimestamp
    ||| k is MissingVersionTag || k is MissingAlgorithmTag || k is MissingSignatureTag || k is MissingBodyHashTag
    ||| k is MissingDomainTag || k is MissingSignedHeadersTag || k is MissingSelectorTag
}
pub open spec fn definite_record_defect(e: DkimKeyRecordError) -> bool {
    e is MisplacedVersionTag || e is MissingKeyTag
}
/// No later attempt can have another result.
pub open spec fn permanent(e: VerificationError) -> bool {
    match e {
        VerificationError::DkimSignatureFormat(x) => definite_signature_defect(x.kind),
        VerificationError::KeyRecordFormat(x) => definite_record_defect(x),
        VerificationError::VerificationFailure(x) => !(x is VerificationFailure),
        _ => e is NoKeyFound || e is InvalidKeyDomain || e is WrongKeyType || e is KeyRevoked
            || e is DisallowedHashAlgorithm || e is DomainMismatch || e is InsufficientContent,
    }
}
pub open spec fn does_not_verify(e: VerificationError) -> bool {
    e is BodyHashMismatch || (e matches VerificationError::VerificationFailure(x) && x is VerificationFailure)
}
pub open spec fn transient(e: VerificationError) -> bool { e is Timeout || e is KeyLookup }
/// What could not be understood.
pub open spec fn not_understood(e: VerificationError) -> bool {
    match e {
        VerificationError::Overflow => true,
        VerificationError::DkimSignatureFormat(x) => !definite_signature_defect(x.kind),
        VerificationError::KeyRecordFormat(x) => !definite_record_defect(x),
        _ => false,
    }
}

impl VerificationStatus {
@@fn verifier/mod.rs::VerificationStatus::to_dkim_result
@ret r
@spec
    ensures
        r is Pass <==> self is Success,
        r is Fail <==> (*self matches VerificationStatus::Failure(e) && does_not_verify(e)),
        r is Policy <==> (*self matches VerificationStatus::Failure(e) && e is Policy),
        r is Temperror <==> (*self matches VerificationStatus::Failure(e) && transient(e)),
        r is Permerror <==> (*self matches VerificationStatus::Failure(e) && permanent(e)),
        r is Neutral <==> (*self matches VerificationStatus::Failure(e) && not_understood(e)),
@@end
}
} // verus!
fn main() {}
