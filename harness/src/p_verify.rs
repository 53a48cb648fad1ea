//! Verification (C06-C09, C17) against an independent verifier.
use crate::ctx::*;
use crate::dk::{self, Focus};

pub fn c06(c: &mut Ctx) -> &'static str {
    dk::run(c, "signature field hashed without its b= value", &[Focus::Format]);
    "independently signed messages whose signature fields have random tag order, white space and look-alike b tags; non-trivial: each distinct message"
}
pub fn c07(c: &mut Ctx) -> &'static str {
    dk::run(c, "success exactly when hash, key and signature check out", &[Focus::Tamper, Focus::Tamper, Focus::Format]);
    "independently signed messages, half of them altered in header, body, signature or body hash; non-trivial: each distinct message"
}
pub fn c08(c: &mut Ctx) -> &'static str {
    dk::run(c, "policy outcome", &[Focus::Policy]);
    "independently signed messages verified under random configurations with times around the limits and keys of 512 to 2048 bits; non-trivial: each distinct (message, configuration)"
}
pub fn c09(c: &mut Ctx) -> &'static str {
    dk::run(c, "key record constraints", &[Focus::Key]);
    "independently signed messages with one to three key records, altered in type, key, hash list, flags or encoding; non-trivial: each distinct (message, records)"
}
pub fn c17(c: &mut Ctx) -> &'static str {
    dk::run(c, "results and lookups per signature", &[Focus::Multi]);
    "messages with several signatures, unusable ones in between, shared and failing lookups; non-trivial: each distinct message"
}

pub fn c19(c: &mut Ctx) -> &'static str {
    use viadkim::crypto::VerificationError as CE;
    use viadkim::record::DkimKeyRecordError as RE;
    use viadkim::signature::{DkimSignatureError, DkimSignatureErrorKind as SE};
    use viadkim::verifier::{DkimResult as R, PolicyError as P, VerificationError as E, VerificationStatus as S};
    let mut t: Vec<(S, R)> = vec![(S::Success, R::Pass)];
    let mut f = |e, r| t.push((S::Failure(e), r));
    // could not be understood
    for k in [
        SE::Utf8Encoding, SE::TagListFormat, SE::IncompatibleVersion, SE::UnsupportedAlgorithm, SE::InvalidBase64, SE::UnsupportedCanonicalization,
        SE::InvalidDomain, SE::InvalidSignedHeaderName, SE::InvalidIdentity, SE::InvalidBodyLength, SE::InvalidQueryMethod,
        SE::NoSupportedQueryMethods, SE::InvalidSelector, SE::InvalidTimestamp, SE::InvalidExpiration, SE::InvalidCopiedHeaderField,
    ] {
        f(E::DkimSignatureFormat(DkimSignatureError::new(k)), R::Neutral);
        let mut e = DkimSignatureError::new(k);
        e.domain_str = Some("x".into());
        f(E::DkimSignatureFormat(e), R::Neutral);
    }
    // missing or contradictory tags
    for k in [
        SE::HistoricAlgorithm, SE::EmptySignatureTag, SE::EmptyBodyHashTag, SE::EmptySignedHeadersTag, SE::FromHeaderNotSigned, SE::MissingVersionTag,
        SE::MissingAlgorithmTag, SE::MissingSignatureTag, SE::MissingBodyHashTag, SE::MissingDomainTag, SE::MissingSignedHeadersTag,
        SE::MissingSelectorTag, SE::DomainMismatch, SE::ExpirationNotAfterTimestamp,
    ] {
        f(E::DkimSignatureFormat(DkimSignatureError::new(k)), R::Permerror);
    }
    for k in [
        RE::RecordFormat, RE::TagListFormat, RE::IncompatibleVersion, RE::InvalidHashAlgorithm, RE::NoSupportedHashAlgorithms, RE::UnsupportedKeyType,
        RE::InvalidQuotedPrintable, RE::InvalidBase64, RE::InvalidServiceType, RE::NoSupportedServiceTypes, RE::InvalidFlag,
    ] {
        f(E::KeyRecordFormat(k), R::Neutral);
    }
    for k in [RE::MisplacedVersionTag, RE::MissingKeyTag] {
        f(E::KeyRecordFormat(k), R::Permerror);
    }
    f(E::Overflow, R::Neutral);
    for e in [E::NoKeyFound, E::InvalidKeyDomain, E::WrongKeyType, E::KeyRevoked, E::DisallowedHashAlgorithm, E::DomainMismatch, E::InsufficientContent] {
        f(e, R::Permerror);
    }
    f(E::VerificationFailure(CE::InvalidKey), R::Permerror);
    f(E::VerificationFailure(CE::InsufficientKeySize), R::Permerror);
    f(E::VerificationFailure(CE::VerificationFailure), R::Fail);
    f(E::BodyHashMismatch, R::Fail);
    f(E::Timeout, R::Temperror);
    f(E::KeyLookup, R::Temperror);
    for p in [
        P::RequiredHeaderNotSigned, P::UnsignedHeaderOccurrence, P::UnsignedContent, P::SignatureExpired, P::TimestampInFuture, P::Sha1HashAlgorithm,
        P::KeyTooSmall,
    ] {
        f(E::Policy(p), R::Policy);
    }
    for (s, r) in t {
        if c.mine() {
            let name = match r {
                R::None => "none",
                R::Pass => "pass",
                R::Fail => "fail",
                R::Policy => "policy",
                R::Neutral => "neutral",
                R::Temperror => "temperror",
                R::Permerror => "permerror",
            };
            c.eval("result of a status", || format!("{s:?}"), || {
                let g = s.to_dkim_result();
                if g == r && g.to_string() == name { Res::Ok } else { Res::Bad(format!("{g}, documented as {name}")) }
            });
        }
    }
    c.exhaustive.push("every verification status".into());
    "every status there is; non-trivial: each status"
}
