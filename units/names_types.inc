@@item signature.rs::ParseDomainError
@@end
@@item signature.rs::DomainName
@@end
@@item signature.rs::Selector
@@end
@@item signature.rs::ParseIdentityError
@@end
@@item signature.rs::Identity
@@end
